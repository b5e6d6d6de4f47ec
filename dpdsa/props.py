"""The properties and the obligations that decide them."""
from __future__ import annotations

from fractions import Fraction
from pathlib import Path

from . import terms as T
from .terms import num, string, sym

REGISTRY = {}
TRUSTED = [
    "the abstract semantics of Python in dpdsa/ (value graphs of the analysed functions)",
    "the models of sympy, attrs, qrules, ampform and tensorwaves in dpdsa/models.py and dpdsa/config.py",
    "the reference formulations in specs/",
]


class Prop:
    def __init__(self, pid, decide, min_obligations, explanation, level, assumptions):
        self.pid, self.decide, self.min_obligations = pid, decide, min_obligations
        self.explanation, self.level, self.assumptions = explanation, level, assumptions


def prop(pid, min_obligations, explanation, level="other", assumptions=()):
    def deco(f):
        REGISTRY[pid] = Prop(pid, f, min_obligations, explanation, level, TRUSTED + list(assumptions))
        return f

    return deco


# ---------------------------------------------------------------- angles
ANG = "ampform_dpd.angles."


@prop("A01", 25, "value graph of formulate_scattering_angle compared with the reference for every pair of IDs")
def scattering_angle(r):
    for i in range(5):
        for j in range(5):
            r.same(f"theta_{i}{j}", ANG + "formulate_scattering_angle", "specs.angles.scattering", [num(i), num(j)])


@prop("A02", 73, "value graphs of the alignment angles compared with the reference for every combination of IDs")
def alignment_angles(r):
    for i in range(5):
        for j in range(5):
            r.same(f"theta_hat_{i}({j})", ANG + "formulate_theta_hat_angle", "specs.angles.theta_hat", [num(i), num(j)])
    for i in range(4):
        for j in range(1, 4):
            for k in range(4):
                r.same(f"zeta^{i}_{j}({k})", ANG + "formulate_zeta_angle", "specs.angles.zeta", [num(i), num(j), num(k)])


# ---------------------------------------------------------------- spin
SPIN = "ampform_dpd.spin."
N = ("num",)


def half(n):
    return T.num(T.Fraction(n, 2))


@prop("S01", 14, "spin ranges: value graph of the range generator compared with an arithmetic progression")
def spin_ranges(r):
    shapes = [[half(n)] for n in range(0, 12)]
    r.same("spin projections", SPIN + "create_spin_range", "specs.spin.spin_range", [sym("j", N)], shapes=shapes)
    r.same("rational range", SPIN + "create_rational_range", "specs.spin.rational_range", [sym("lo", N), sym("hi", N)],
           shapes=[[half(a), half(b)] for a in range(-5, 6) for b in range(-5, 8) if (a - b) % 2 == 0])
    for n in range(0, 12):
        r.same(f"spin projections of {n}/2", SPIN + "create_spin_range", "specs.spin.spin_range", [half(n)])


@prop("S02", 3, "LS couplings: value graph compared with the triangle rules; parity filter with parity conservation")
def ls_couplings(r):
    shapes = [[half(a), half(b), half(c), num(m)] for a in range(0, 4) for b in range(0, 4) for c in range(0, 4)
              for m in (0, 3)]
    r.same("LS couplings", SPIN + "generate_ls_couplings", "specs.spin.ls_couplings",
           [sym("j", N), sym("j1", N), sym("j2", N), sym("lmax", ("int",))], shapes=shapes)
    r.same("LS couplings (default L)", SPIN + "generate_ls_couplings", "specs.spin.ls_couplings",
           [sym("j", N), sym("j1", N), sym("j2", N)], shapes=[x[:3] for x in shapes[1::2]])
    ls = sym("ls", ("list", ("tuple", [("int",), N])))
    p = [sym(x, ("int",)) for x in ("p", "p1", "p2")]
    lists = [T.seq("list", [T.el(T.seq("tuple", [T.el(num(L)), T.el(half(S))])) for L, S in c])
             for c in ([], [(0, 1)], [(1, 1)], [(0, 0), (1, 2), (2, 2), (3, 1)])]
    r.same("parity filter", SPIN + "filter_parity_violating_ls", "specs.spin.parity_filter", [ls, *p],
           shapes=[[c, num(a), num(b), num(d)] for c in lists for a in (1, -1) for b in (1, -1) for d in (1, -1)])


# ---------------------------------------------------------------- decay
import itertools  # noqa: E402

DEC = "ampform_dpd.decay."
SD = "specs.decay."
CHAIN = ("cls", DEC + "ThreeBodyDecayChain", None)
PARTICLE = ("cls", DEC + "Particle", None)
STATE = ("cls", DEC + "State", None)
LS = ("cls", DEC + "LSCoupling", None)
RESONANCE = ("cls", DEC + "Particle", None, "exact")
NODE = DEC + "IsobarNode"
OPT_LS = ("union", [LS, ("none",)])


def final_state(index=None):
    return ("cls", DEC + "State", (("index", num(index)),)) if index is not None else STATE


def chain_type(ids=(None, None, None), swapped=False, ls=(OPT_LS, OPT_LS)):
    """Type of the decay chains with the given IDs for decay products and spectator."""
    i, j, k = ids
    inner = ("cls", NODE, (("parent", RESONANCE), ("child1", final_state(i)), ("child2", final_state(j)),
                           ("interaction", ls[1])))
    spect = final_state(k)
    outer = ("cls", NODE, (("parent", final_state(0)), ("child1", spect if swapped else inner),
                           ("child2", inner if swapped else spect), ("interaction", ls[0])))
    return ("cls", DEC + "ThreeBodyDecayChain", (("decay", outer),))


def decay_type(**kw):
    return ("cls", DEC + "ThreeBodyDecay", (("states", as_states()), ("chains", ("tuple*", chain_type(**kw)))))


@prop("D01", 14, "construction of decay chains compared with the reference conditions")
def chain_construction(r):
    ids = [sym(f"i{k}", ("int",)) for k in range(4)]
    consts = [[num(x) for x in c] for c in itertools.product(range(4), repeat=4)
              if r.tier == "thorough" or len(set(c)) >= 3 and c[0] < 2]
    for sw in (T.FALSE, T.TRUE):
        r.same(f"distinct IDs (swapped={T.show(sw)})", SD + "chain_with_ids", SD + "ref_chain_with_ids", [*ids, sw],
               shapes=[[*c, sw] for c in consts])
    for k in range(12):
        r.same(f"kinds {k}", SD + "construct_kind", SD + "ref_construct_kind", [num(k)], exc="any")


@prop("D02", 20, "accessors of decay chains compared with the constituents from which the chain was built")
def chain_accessors(r):
    opt_ls = [sym("ls1", LS), sym("ls2", LS)]
    for sw in (T.FALSE, T.TRUE):
        for ls in ([T.NONE, T.NONE], opt_ls, [opt_ls[0], T.NONE], [T.NONE, opt_ls[1]]):
            a = [sym("parent", STATE), sym("R", PARTICLE), sym("a", STATE), sym("b", STATE), sym("c", STATE), sw, *ls]
            r.same(f"accessors (swapped={T.show(sw)}, LS={[T.show(x) for x in ls]})", SD + "accessors", SD + "ref_accessors", a)
        for p in itertools.permutations((1, 2, 3)):
            r.same(f"final state order {p}", SD + "final_state_order", SD + "ref_final_state_order",
                   [*map(num, p), sw])


def tup(*xs):
    return T.seq("tuple", [T.el(x) for x in xs])


def lst(*xs):
    return T.seq("list", [T.el(x) for x in xs])


DECAY = ("cls", DEC + "ThreeBodyDecay", None)


def as_states(st_or=None):
    def rec(i):
        return sym(f"s{i}", ("cls", DEC + "State", (("index", num(i)),)))

    return T.mkdict([T.kv(num(i), rec(i)) for i in range(4)])


@prop("D03", 25, "construction of decays compared with the reference conditions on initial and final states")
def decay_construction(r):
    chains = sym("chains", ("list", chain_type()))
    combos = [[]] + [[(k, q)] for k in (1, 2, 3) for q in range(6)] + [
        [(1, 0), (2, 0)], [(1, 0), (3, 4)], [(2, 2), (1, 0)], [(1, 0), (2, 0), (3, 0)], [(1, 0), (2, 0), (3, 1)]]
    for c in combos:
        r.same(f"decay {c}", SD + "decay_shape", SD + "ref_decay_shape", [lst(*[tup(num(a), num(b)) for a, b in c])])
    states = as_states()
    r.same("any chains", SD + "decay", SD + "ref_decay", [states, chains], shapes=[[states, lst()], [states, lst(sym("c1", chain_type()))]])


@prop("D04", 38, "selection of chains and subsystems compared with the reference selections")
def selections(r):
    d = sym("decay", decay_type())
    r.same("find_chain", SD + "find_chain", SD + "ref_find_chain", [d, sym("name", ("str",))], shapes=[])
    r.same("get_subsystem", SD + "subsystem", SD + "ref_subsystem", [d, sym("k", ("int",))])
    for k in range(5):
        r.same(f"decay products opposite of {k}", DEC + "get_decay_product_ids", SD + "ref_product_ids", [num(k)])
    u = ("union", [("cls", DEC + "IsobarNode", None), PARTICLE])
    r.same("to_particle", DEC + "to_particle", SD + "ref_to_particle", [sym("x", u)])
    nc = [lst(*[tup(string(n), num(k)) for n, k in c]) for c in
          ([], [("R", 1)], [("R", 1), ("S", 1)], [("R", 1), ("R", 2), ("S", 2)], [("S", 3), ("R", 3), ("T", 1), ("R", 2)])]
    for i, c in enumerate(nc):
        for n in ("R", "S", "X"):
            r.same(f"find {n} in {i}", SD + "find_in", SD + "ref_find_in", [c, string(n)])
        for k in (1, 2, 3):
            r.same(f"subsystem {k} of {i}", SD + "subsystem_of", SD + "ref_subsystem_of", [c, num(k)])


@prop("D05", 40, "conversion and validation of spins and couplings, and immutability of the value classes")
def value_classes(r):
    third = lambda n: num(T.Fraction(n, 3))
    spins = [half(n) for n in range(0, 8)] + [third(1), third(2), num(T.Fraction(1, 4))]
    for name, ref in (("particle", "ref_spin"), ("state", "ref_spin"), ("ls", "ref_ls")):
        r.same(f"spin of {name}", SD + "make_" + name, SD + ref, [sym("s", N), sym("x", ("int",))],
               shapes=[[s, sym("x", ("int",))] for s in spins])
    p = [sym("p", PARTICLE), sym("a", STATE), sym("b", STATE)]
    L = sym("L", ("int",))
    for label, x in (("none", T.NONE), ("coupling", sym("ls", LS)), ("tuple", tup(L, sym("S", N))),
                     ("other", sym("x", ("str",))), ("list", lst(L, sym("S", N)))):
        r.same(f"interaction from {label}", SD + "node_ls", SD + "ref_node_ls", [*p, x])
    r.same("default interaction", SD + "node_no_ls", SD + "ref_none", p)
    for name, ref in (("particle", "ref_spin"), ("state", "ref_spin"), ("ls", "ref_ls")):
        r.same(f"spin of {name} given as text", SD + "make_" + name, SD + ref, [sym("s_text", TEXT), sym("x", ("int",))],
               shapes=[[string(s), sym("x", ("int",))] for s in ("0", "1/2", "3/2", "2", "1/3")])
    chains = [as_states(), sym("c1", chain_type()), sym("c2", chain_type())]
    skip, r.cfg.skip_post_init = r.cfg.skip_post_init, (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    for how in ("changed_list", "generator"):
        r.same(f"chains of {how}", SD + "chains_of_" + how, SD + "ref_chains_of_" + how, chains)
    r.cfg.skip_post_init = skip
    for c in ("Particle", "State", "IsobarNode", "ThreeBodyDecayChain", "LSCoupling", "ThreeBodyDecay"):
        value_class(r, DEC + c, order=c != "ThreeBodyDecay")
    value_class(r, "ampform_dpd.AmplitudeModel", order=False)


def value_class(r, qual, order):
    f = r.e.fn(qual)
    if f.op != "cls":
        r.broken.append(f"{qual} is not a class")
        return
    ci = r.it.cls[f.args[0]]
    where = f"{r.it.modules[ci.module].path}:{ci.node.lineno}:{qual.split('.')[-1]}"
    r.fact(f"{qual.split('.')[-1]} is immutable", ci.kind in ("attrs_frozen", "unevaluated"), where,
           "instances are values: attributes cannot be assigned", f"class kind is {ci.kind}")
    r.fact(f"{qual.split('.')[-1]} compares by value", ci.eq, where, "instances with equal attributes are equal and have the same hash")
    custom = sorted({"__eq__", "__ne__", "__hash__", "__lt__", "__setattr__"} & {m for q in r.it.mro(ci.qual) for m in r.it.cls[q].methods})
    if custom:
        r.broken.append(f"{qual} defines {custom}")
    left_out = []
    for x in r.it.all_fields(ci.qual):
        for k in ("eq", "order", "hash", "cmp") if order else ("eq", "hash", "cmp"):
            v = getattr(x, "meta", {}).get(k, T.TRUE)
            if v is T.FALSE:
                left_out.append(f"{x.name} ({k})")
            elif v is not T.TRUE and v is not T.NONE:
                r.broken.append(f"{qual}.{x.name}: {k}={T.show(v)}")
    r.fact(f"every attribute of {qual.split('.')[-1]} is compared", not left_out, where,
           "instances that differ in an attribute are different", f"not compared: {', '.join(left_out)}")
    if order:
        r.fact(f"{qual.split('.')[-1]} is ordered", ci.order, where, "instances can be sorted by their attributes")


# ---------------------------------------------------------------- QRules adapter
from .config import EDGE, FROZEN, MUTABLE, QINT, QPART, QSTATE, TOPO  # noqa: E402

SQ = "specs.qadapter."
QA = "ampform_dpd.adapter.qrules."
STATE_ID = ("cls", DEC + "State", (("index", ("int",)),))


@prop("Q01", 9, "relabelling of state IDs compared with the rank of each ID, for every supported type")
def normalisation(r):
    reaction = ("ext", "qrules.ReactionInfo", ())
    problem = ("ext", "qrules.ProblemSet", ())
    for label, typ, ref in (("topology", TOPO, "norm_topology"), ("transition", FROZEN, "norm_transition"),
                            ("mutable transition", MUTABLE, "norm_transition"), ("reaction", reaction, "norm_reaction"),
                            ("problem set", problem, "norm_problem_set"),
                            ("transitions", ("list", FROZEN), "norm_iterable"),
                            ("number", ("int",), "not_supported")):
        r.same(f"normalise a {label}", QA + "normalize_state_ids", SQ + ref, [sym("x", typ)])
    r.same("normalise an iterator", SQ + "normalized_iterator", SQ + "normalized_list", [sym("x", ("list", FROZEN))])
    r.same("normalise a mixed list", SQ + "normalized_pair", SQ + "norm_pair", [sym("x", FROZEN), sym("y", TOPO)])


@prop("Q02", 3, "conversion of transitions compared with the reference conversion")
def conversion(r):
    r.same("convert transitions", QA + "convert_transitions", SQ + "ref_convert", [sym("ts", ("list", FROZEN))])
    r.same("convert an iterator", SQ + "converted_iterator", SQ + "converted_list", [sym("ts", ("list", FROZEN))])
    r.same("convert again", QA + "convert_transitions", SQ + "ref_converted_again",
           [sym("qts2", ("list", ("ext", "qrules.FrozenTransition", (("union", [PARTICLE, STATE_ID]), OPT_LS))))])


def transition(names, label="t", res=None, inter=None, edge=None):
    """A transition with final states 1, 2, 3 of the given particle names; everything else is arbitrary."""
    def st(i, n):
        part = ("ext", "qrules.Particle", (), (("name", string(n)),))
        return sym(f"{label}.s{i}", ("ext", "qrules.State", (), (("particle", part),)))

    fs = T.mkdict([T.kv(num(i), st(i, n)) for i, n in zip((1, 2, 3), names)])
    return sym(label, ("ext", "qrules.FrozenTransition", (), (("final_states", fs),)))


@prop("Q03", 10, "permutation of equal final states compared with the reference, for every pattern of equal particles")
def permutation(r):
    fn, ref = QA + "permute_equal_final_states", SQ + "ref_permuted"
    patterns = [[transition(p, "t_" + p)] for p in ("ABC", "AAB", "ABA", "BAA", "AAA")]
    r.same("one transition", fn, ref, [sym("t", FROZEN)], shapes=patterns)
    for p in patterns:
        r.same(f"pattern {T.show(p[0])}", fn, ref, p)
    lists = [[lst()], [lst(transition("AAB", "t1"))], [lst(transition("AAB", "t1"), transition("ABC", "t2"), transition("AAA", "t3"))]]
    r.same("several transitions", fn, SQ + "ref_permuted_list", [sym("ts", ("list", FROZEN))], shapes=lists)
    r.same("reaction", fn, SQ + "ref_permuted_reaction", [sym("reaction", ("ext", "qrules.ReactionInfo", ()))],
           shapes=[[sym(f"reaction{i}", ("ext", "qrules.ReactionInfo", (), (("transitions", x[0]),)))]
                   for i, x in enumerate(lists)])
    r.same("iterator", SQ + "permuted_iterator", SQ + "permuted_list", [lists[2][0]])
    r.same("other types", fn, SQ + "not_supported", [sym("number", ("int",))])


def ls_const(L, S):
    return T.mk("rec", DEC + "LSCoupling", (("L", num(L)), ("S", half(S))))


NODE_ORDERS = ((0, 1), (1, 0))


def by_node(order, typ=OPT_LS):
    """Interactions of a transition with the two nodes in the given order."""
    return "interactions", ("keys", tuple((num(i), typ) for i in order))


@prop("Q04", 14, "selection of minimal LS couplings compared with the reference selection")
def min_ls_filter(r):
    fn, ref = QA + "filter_min_ls", SQ + "ref_min_ls"
    for order in NODE_ORDERS:
        tr = ("ext", "qrules.FrozenTransition", (PARTICLE, OPT_LS), (by_node(order),))
        for label, ids in (("default", None), ("both", (0, 1)), ("production", (0,)), ("decay", (1,)), ("no", ())):
            kw = {} if ids is None else {"node_ids": T.mkset([T.el(num(i)) for i in ids])}
            r.same(f"{label} nodes, order {order}", fn, ref, [sym(f"qts{order}", ("list", tr))], kw)
        r.same(f"iterator, order {order}", SQ + "min_ls_of_iterator", SQ + "min_ls_of_list", [sym(f"qts{order}", ("list", tr))])
    for nodes in ((0,), (0, 1, 2)):
        tr = ("ext", "qrules.FrozenTransition", (PARTICLE, OPT_LS), (by_node(nodes),))
        r.same(f"transitions with nodes {nodes}", fn, SQ + "ref_wrong_nodes", [sym(f"qts{nodes}", ("list", tr))])


def cut(typ):
    """Keep calls of a public function uninterpreted (it is the subject of another property)."""
    def handler(it, st, fi, args, kwargs):
        b = it.bind_args(st, None, fi, args, kwargs)
        if b is None:
            return None
        vals = []
        for v in b.values():
            v = it.freeze(st, it.content(st, v))
            vals.append(T.lift(lambda x: T.seq("list", T.as_segments(x)) if x.op == "seq" else x, v))
        r = T.app("cut:" + fi.qual, tuple(vals))
        CUT_TYPES["cut:" + fi.qual] = typ
        return r

    return handler


from .models import APP_TYPES as CUT_TYPES  # noqa: E402

CONVERTED = ("ext", "qrules.FrozenTransition", (("union", [PARTICLE, STATE]), OPT_LS),
             (("initial_states", ("dict", ("int",), STATE_ID)), ("final_states", ("dict", ("int",), STATE_ID)),
              ("intermediate_states", ("dict", ("int",), PARTICLE))))


def converted(order):
    return CONVERTED[:3] + ((*CONVERTED[3], by_node(order)),)


@prop("Q05", 20, "assembly of the decay from converted transitions compared with the reference assembly")
def decay_from_transitions(r):
    ts = sym("qts5", ("list", FROZEN))
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    fn, ref = QA + "to_three_body_decay", SQ + "ref_three_body"
    for order in NODE_ORDERS:
        c = ("tuple*", converted(order))
        cuts = {QA + "convert_transitions": cut(c), QA + "filter_min_ls": cut(c), QA + "normalize_state_ids": cut(("list", FROZEN))}
        r.same(f"default, order {order}", fn, ref, [ts], cuts=cuts)
        for m in (T.FALSE, T.TRUE, *[tup(T.boolean(a), T.boolean(b)) for a in (0, 1) for b in (0, 1)]):
            r.same(f"min_ls={T.show(m)}, order {order}", fn, ref, [ts, m], cuts=cuts)
        for m in (T.FALSE, T.TRUE):
            r.same(f"iterator, min_ls={T.show(m)}, order {order}", SQ + "decay_of_iterator", SQ + "decay_of_list", [ts, m], cuts=cuts)
    for nodes in ((0,), (0, 1, 2)):
        c = ("tuple*", converted(nodes))
        r.same(f"transitions with nodes {nodes}", fn, ref, [ts], cuts={
            QA + "convert_transitions": cut(c), QA + "normalize_state_ids": cut(("list", FROZEN))})


# ---------------------------------------------------------------- amplitude model
SM = "specs.model."
MOD = "ampform_dpd."


def model_states(label=""):
    """States of a decay: everything but their indices is arbitrary."""
    return [sym(f"{label}s{i}", final_state(i)) for i in range(4)]


def model_chain(k, states, swapped=False, ls=(LS, LS), order=None):
    """Type of the chains in which state k is the spectator."""
    i, j = order or tuple(x for x in (1, 2, 3) if x != k)
    inner = ("cls", NODE, (("parent", RESONANCE), ("child1", states[i]), ("child2", states[j]), ("interaction", ls[1])))
    outer = ("cls", NODE, (("parent", states[0]), ("child1", states[k] if swapped else inner),
                           ("child2", inner if swapped else states[k]), ("interaction", ls[0])))
    return ("cls", DEC + "ThreeBodyDecayChain", (("decay", outer),))


def model_decay(label, states, chains):
    """A decay with the given states; `chains` is a type (any number of such chains) or a list of chains."""
    ft = ("tuple*", chains) if isinstance(chains, tuple) else tup(*chains)
    return sym(label, ("cls", DEC + "ThreeBodyDecay", (
        ("states", T.mkdict([T.kv(num(i), s) for i, s in enumerate(states)])), ("chains", ft))))


SPIN_CUT = {SPIN + "create_spin_range": cut(("list", N))}


BUILDER = MOD + "DalitzPlotDecompositionBuilder"
BOOLS = (T.TRUE, T.FALSE)
LAMBDAS = [sym(f"lam{i}", N) for i in range(4)]


@prop("M01", 126, "amplitude of each subsystem compared with the reference formula")
def subsystem_amplitude(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    st = model_states()
    decays = []
    for k in (1, 2, 3):
        decays.append((f"subsystem {k}", k, model_decay(f"decay{k}", st, model_chain(k, st))))
        decays.append((f"subsystem {k} (production node reversed)", k,
                       model_decay(f"decay{k}s", st, model_chain(k, st, True))))
        decays.append((f"subsystem {k} (decay node reversed)", k, model_decay(
            f"decay{k}r", st, model_chain(k, st, order=tuple(x for x in (3, 2, 1) if x != k)))))
        decays.append((f"subsystem {k} (couplings may be missing)", k,
                       model_decay(f"decay{k}n", st, model_chain(k, st, ls=(OPT_LS, OPT_LS)))))
    mixed = [sym(f"m{n}{k}", model_chain(k, st)) for n, k in enumerate((1, 2, 3, 2, 1))]
    for k in (1, 2, 3):
        decays.append((f"subsystem {k} of a decay with several subsystems", k, model_decay("mixed", st, mixed)))
    for label, k, d in decays:
        for prod in BOOLS:
            for dec in BOOLS:
                for coeff in BOOLS:
                    r.same(f"{label}, helicity basis ({T.show(prod)}, {T.show(dec)}), coefficients {T.show(coeff)}",
                           SM + "subsystem", SM + "ref_subsystem", [d, prod, dec, coeff, num(k), *LAMBDAS], cuts=SPIN_CUT,
                           unordered=True, about=BUILDER + ".formulate_subsystem_amplitude")
    chains = [named_chain(f"mc{i}", n, 1, st) for i, n in enumerate(("R", "S", "R"))]
    b = [sym(f"dynamics{i}", ("callable", ("cls", MOD + "DefinedExpression", None))) for i in range(2)]
    d = model_decay("mdyn", st, chains)
    for label, ops in (("one chain", [(chains[0], b[0])]), ("a resonance", [(string("R"), b[0])]),
                       ("two chains", [(chains[1], b[0]), (chains[2], b[1])])):
        for coeff in BOOLS:
            r.same(f"dynamics for {label}, coefficients {T.show(coeff)}", SM + "subsystem", SM + "ref_subsystem",
                   [d, T.TRUE, T.TRUE, coeff, num(1), *LAMBDAS, lst(*[tup(*x) for x in ops])], cuts=SPIN_CUT, unordered=True,
                   about=BUILDER + ".formulate_subsystem_amplitude")


def mixed_decay(label, st, ks):
    return model_decay(label, st, [sym(f"{label}.c{n}", model_chain(k, st)) for n, k in enumerate(ks)])


MIXED = [(1,), (2,), (3,), (3, 1), (1, 2, 3), (2, 3, 3), (3, 2, 1, 3), (1, 1, 2)]


@prop("M02", 44, "aligned amplitude and choice of the reference subsystem compared with the reference formula")
def aligned_amplitude(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    st = model_states()
    about = BUILDER + ".formulate_aligned_amplitude"
    for ks in MIXED:
        d = mixed_decay("al" + "".join(map(str, ks)), st, ks)
        for ref in (1, 2, 3):
            r.same(f"chains in {ks}, aligned to {ref}", SM + "aligned", SM + "ref_aligned", [d, num(ref), *LAMBDAS],
                   cuts=SPIN_CUT, unordered=True, about=about)
        r.same(f"chains in {ks}, default reference", SM + "aligned_default", SM + "ref_aligned_default", [d, *LAMBDAS],
               cuts=SPIN_CUT, unordered=True, about=about)
    shuffled = T.mkdict([T.kv(num(i), st[i]) for i in (2, 0, 3, 1)])
    for ks in ((1,), (3, 1)):
        d = sym("als" + "".join(map(str, ks)), ("cls", DEC + "ThreeBodyDecay", (
            ("states", shuffled), ("chains", tup(*[named_chain(f"als{k}", f"R{k}", k, st) for k in ks])))))
        r.same(f"chains in {ks}, states in another order", SM + "aligned", SM + "ref_aligned", [d, num(1), *LAMBDAS],
               cuts=SPIN_CUT, unordered=True, about=about)
    d = model_decay("al0", st, [])
    r.same("no chains", SM + "aligned_default", SM + "ref_aligned_default", [d, *LAMBDAS], cuts=SPIN_CUT, about=about)
    for k in (1, 2, 3):
        d = model_decay(f"al_any{k}", st, model_chain(k, st))
        for ref in (1, 2, 3):
            r.same(f"any number of chains in {k}, aligned to {ref}", SM + "aligned", SM + "ref_aligned",
                   [d, num(ref), *LAMBDAS], cuts=SPIN_CUT, unordered=True, about=about)


def spin_cut(it, st, fi, args, kwargs):
    """Spin projections of an unknown spin stay uninterpreted (S01)."""
    b = it.bind_args(st, None, fi, args, kwargs)
    if b is None or any(v.op in ("num", "none") for v in b.values()):
        return None
    return SPIN_CUT[SPIN + "create_spin_range"](it, st, fi, args, kwargs)


def spin_states(label, spins):
    return [sym(f"{label}{i}", ("cls", DEC + "State", (("index", num(i)), ("spin", s)))) for i, s in enumerate(spins)]


@prop("M03", 82, "complete amplitude model compared with the reference")
def full_model(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    about = BUILDER + ".formulate"
    kw = dict(cuts={SPIN + "create_spin_range": spin_cut}, unordered=True, about=about)
    st = model_states("fs")
    decays = [("any number of chains in 1", model_decay("fullany1", st, model_chain(1, st)))]
    decays += [(f"chains in {ks}", mixed_decay("full" + "".join(map(str, ks)), st, ks)) for ks in ((1,), (2,), (3,), (3, 1), (1, 2, 2))]
    options = [(0, None, 0, 0), (1, 2, 0, 0), (0, 3, 1, 0), (0, 1, 0, 1), (1, None, 1, 1)]
    if r.tier == "thorough":
        decays += [(f"any number of chains in {k}", model_decay(f"fullany{k}", st, model_chain(k, st))) for k in (2, 3)]
        decays += [(f"chains in {ks}", mixed_decay("full" + "".join(map(str, ks)), st, ks)) for ks in ((1, 2, 3), (2, 3, 3))]
        for spins in ((1, 1, 0, 0), (0, 2, 1, 1)):
            cs = spin_states(f"f{spins}s", [half(x) for x in spins])
            for ks in ((1,), (3, 1)):
                decays.append((f"spins {spins}/2, chains in {ks}", mixed_decay(f"full{spins}{ks}", cs, ks)))
    for i, (label, d) in enumerate(decays):
        r.same(f"{label}, defaults", SM + "formulated_default", SM + "ref_formulated_default", [d], **kw)
        for j, (everything, ref, cleanup, coeff) in enumerate(options):
            b = [T.boolean(x) for x in (everything, cleanup, coeff)]
            for n, (prod, dec) in enumerate(itertools.product(BOOLS, BOOLS)):
                if r.tier != "thorough" and (n + i + j) % 4 > (1 if i else 3):
                    continue
                r.same(f"{label}, basis ({T.show(prod)}, {T.show(dec)}), all={everything},"
                       f" reference={ref}, cleanup={cleanup}, coefficients={coeff}",
                       SM + "formulated", SM + "ref_formulated",
                       [d, prod, dec, b[0], num(ref) if ref else T.NONE, b[1], b[2]], **kw)
    dyn = [sym(f"fulldyn{i}", ("callable", ("cls", MOD + "DefinedExpression", None))) for i in range(2)]
    for label, ss in (("any spins", st), ("spins 1/2, 0, 0, 1/2", spin_states("fullds", [half(x) for x in (1, 0, 0, 1)]))):
        chains = [sym(f"full{label}c{n}", model_chain(k, ss)) for n, k in enumerate((1, 3))]
        d = model_decay(f"full{label}", ss, chains)
        for n in (1, 2):
            r.same(f"{label}, dynamics of {n} chains", SM + "formulated_with", SM + "ref_formulated_with",
                   [d, lst(*[tup(c, x) for c, x in zip(chains[:n], dyn)])], **kw)
        x, y = sym("fullx", EXPR_T), sym("fully", N)
        r.same(f"{label}, dynamics with the masses of the states", SM + "formulated_with_masses", SM + "ref_formulated_with_masses",
               [d, chains[0], x, y], **kw)


def named_chain(label, name, k, st):
    """A chain with spectator k and a resonance of the given name."""
    i, j = (x for x in (1, 2, 3) if x != k)
    res = ("cls", DEC + "Particle", (("name", string(name)),), "exact")
    inner = ("cls", NODE, (("parent", res), ("child1", st[i]), ("child2", st[j]), ("interaction", OPT_LS)))
    outer = ("cls", NODE, (("parent", st[0]), ("child1", inner), ("child2", st[k]), ("interaction", OPT_LS)))
    return sym(label, ("cls", DEC + "ThreeBodyDecayChain", (("decay", outer),)))


@prop("M05", 110, "histories of registered dynamics compared with the last applicable registration")
def dynamics_choice(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    about = MOD + "DynamicsConfigurator.get_builder"
    st = model_states("ds")
    c = [named_chain("dc1", "R", 1, st), named_chain("dc2", "R", 2, st), named_chain("dc3", "RS", 2, st)]
    other = named_chain("dc4", "T", 3, st)
    foreign = named_chain("dc5", "R", 3, st)
    d = model_decay("dyn", st, c)
    b = [sym(f"builder{i}", ("callable", ("cls", MOD + "DefinedExpression", None))) for i in range(3)]
    ids = [("R", string("R")), ("RS", string("RS")), ("chain 1", c[0]), ("chain 2", c[1])]
    histories = [[]] + [[x] for x in ids] + [list(x) for x in itertools.product(ids, ids)]
    if r.tier == "thorough":
        histories += [list(x) for x in itertools.product(ids, ids, ids)]
    for h in histories:
        label = "then ".join(n + " " for n, _ in h) or "nothing "
        ops = lst(*[tup(x, b[i]) for i, (_, x) in enumerate(h)])
        for i, q in enumerate(c):
            r.same(f"registered {label}-> chain {i + 1}", SM + "registered", SM + "ref_registered", [d, ops, q], about=about)
    for h in histories[:5]:
        label = "then ".join(n + " " for n, _ in h) or "nothing "
        ops = lst(*[tup(x, b[i]) for i, (_, x) in enumerate(h)])
        for n in ("R", "RS", "T"):
            r.same(f"registered {label}-> by name {n}", SM + "by_name", SM + "ref_by_name", [d, ops, string(n), c[0]], about=about,
                   exc="any")
        r.same(f"registered {label}-> unknown chain", SM + "registered", SM + "ref_registered", [d, ops, other], about=about)
        r.same(f"registered {label}-> unknown chain with a known resonance", SM + "registered", SM + "ref_registered", [d, ops, foreign],
               about=about)
    reg = MOD + "DynamicsConfigurator.register_builder"
    for label, x in (("unknown chain", other), ("unknown chain with a known resonance", foreign), ("unknown name", string("T")), ("number", num(3)), ("None", T.NONE)):
        r.same(f"registration for {label}", SM + "registered", SM + "ref_registered", [d, lst(tup(x, b[0])), c[0]], about=reg, exc="any")
    r.same("decay of the choices", SM + "configured_decay", SM + "ref_itself", [d], about=MOD + "DynamicsConfigurator.decay")
    for x in itertools.product(BOOLS, BOOLS, BOOLS):
        r.same(f"configuration {T.show(tup(*x))}", SM + "builder_state", SM + "ref_builder_state", [d, *x], about=BUILDER)
    for label, x in (("True", T.TRUE), ("False", T.FALSE), ("list", lst(T.TRUE, T.TRUE)), ("triple", tup(*[T.TRUE] * 3)),
                     ("None", T.NONE), ("number", num(2)), ("text", string("ab")), ("single", tup(T.TRUE))):
        r.same(f"min_ls={label}", SM + "configured", SM + "ref_configured", [d, x], about=BUILDER)


EXPR_T = ("ext", "sympy.Expr", ())
SYMBOL_T = ("ext", "sympy.Symbol", ())
PARAMS = ("dict", SYMBOL_T, N)


@prop("M06", 24, "mass symbols and invariants compared with the reference")
def kinematics(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    st = model_states("ks")
    d = model_decay("kdecay", st, model_chain(1, st))
    shuffled = sym("kdecay2", ("cls", DEC + "ThreeBodyDecay", (
        ("states", T.mkdict([T.kv(num(i), st[i]) for i in (2, 0, 3, 1)])), ("chains", ("tuple*", model_chain(1, st))))))
    for label, x in (("", d), (" (states in another order)", shuffled)):
        r.same("masses of the states" + label, MOD + "create_mass_symbol_mapping", SM + "ref_mass_mapping", [x])
        r.same("order of the masses" + label, SM + "mass_order", SM + "ref_mass_order", [x], about=MOD + "create_mass_symbol_mapping")
        r.same("invariants" + label, MOD + "formulate_invariants", SM + "ref_invariants", [x])
        for i, j in itertools.permutations((1, 2, 3), 2):
            r.same(f"third Mandelstam variable {i}, {j}" + label, SM + "third", SM + "ref_third", [x, num(i), num(j)],
                   about=MOD + "formulate_third_mandelstam")
    node = sym("knode", ("cls", NODE, (("parent", RESONANCE), ("child1", st[1]), ("child2", st[2]))))
    top = sym("ktop", ("cls", NODE, (("parent", st[0]), ("child1", node), ("child2", st[3]))))
    for label, x in (("state", st[2]), ("any state", sym("kstate", STATE)), ("resonance", sym("kres", RESONANCE)),
                     ("isobar", node), ("production isobar", top), ("initial state", st[0])):
        r.same(f"mass symbol of {label}", MOD + "create_mass_symbol", SM + "ref_mass_symbol", [x])


@prop("M07", 3, "insertion of the amplitudes compared with the reference")
def full_expression(r):
    d = sym("mdecay", DECAY)
    about = MOD + "AmplitudeModel.full_expression"
    indexed = ("ext", "sympy.Indexed", ())
    r.same("any amplitudes", SM + "full", SM + "ref_full",
           [d, sym("intensity", EXPR_T), sym("amplitudes", ("dict", indexed, EXPR_T))], about=about)
    amps = T.mkdict([T.kv(T.app("sympy.Symbol", (string(f"A{i}"),)), sym(f"expr{i}", EXPR_T)) for i in range(2)])
    r.same("two amplitudes", SM + "full", SM + "ref_full", [d, sym("intensity", EXPR_T), amps], about=about)
    r.same("models do not share attributes", SM + "independent_models", SM + "ref_independent_models",
           [d, sym("key", SYMBOL_T), sym("value", N)], about=MOD + "AmplitudeModel")


@prop("L03", 13, "products of dynamics compared with the reference; factors do not share their parameters")
def dynamics_products(r):
    about = MOD + "DefinedExpression.__mul__"
    a = tup(sym("ea", EXPR_T), sym("pa", PARAMS))
    b = tup(sym("eb", EXPR_T), sym("pb", PARAMS))
    other = sym("other", ("cls", MOD + "DefinedExpression", None))
    r.same("with dynamics", SM + "product_of", SM + "ref_product_defined", [a, other], about=about)
    r.same("with a tuple", SM + "product_of", SM + "ref_product_tuple", [a, b], about=about)
    r.same("with a list", SM + "product_of", SM + "ref_product_tuple", [a, T.seq("list", b.args[1])], about=about)
    for label, x in (("an expression", sym("ec", EXPR_T)), ("a symbol", sym("sc", SYMBOL_T)), ("a number", sym("nc", N))):
        r.same("with " + label, SM + "product_of", SM + "ref_product_scalar", [a, x], about=about)
        r.same(f"parameters of the factor of {label}", SM + "mutated_after_product", SM + "ref_left_parameters",
               [a, x, sym("key", SYMBOL_T), sym("value", N)], about=about)
    for label, x in (("dynamics", other), ("a tuple", b)):
        r.same(f"parameters of the left factor ({label})", SM + "mutated_after_product", SM + "ref_left_parameters",
               [a, x, sym("key", SYMBOL_T), sym("value", N)], about=about)
    r.same("parameters of the right factor", SM + "mutated_after_right", SM + "ref_right_parameters",
           [a, b, sym("key", SYMBOL_T), sym("value", N)], about=about)
    r.same("default parameters", SM + "independent_defaults", SM + "ref_empty", [sym("key", SYMBOL_T), sym("value", N)],
           about=MOD + "DefinedExpression")


# ---------------------------------------------------------------- dynamics
SL = "specs.dynamics."
DYN = "ampform_dpd.dynamics."


def numbers(text):
    return [sym(n, EXPR_T) for n in text.split()]


@prop("L01", 23, "value graph of every lineshape compared with its reference formula")
def lineshapes(r):
    s, m, w = numbers("s m w")
    phsp = sym("phsp", ("callable", EXPR_T))
    one = [s, m, w, *numbers("m1 m2 L R")]
    zero = [num(0)]
    for cls, name, args in (
        ("SimpleBreitWigner", "simple", one[:3]),
        ("RelativisticBreitWigner", "relativistic", [*one, phsp]),
        ("RelativisticBreitWigner", "relativistic_default", one),
        ("BreitWignerMinL", "min_l", [*numbers("s m_top m_spec m0 w0 m1 m2 l_dec l_prod R_dec R_prod"), phsp]),
        ("BuggBreitWigner", "bugg", numbers("s m0 w0 m1 m2 gamma")),
        ("FlattéSWave", "flatte", numbers("s m0 w1 w2 ma1 mb1 ma2 mb2")),
        ("ChannelArguments", "channel", one),
        ("ChannelArguments", "channel_default", one[:3]),
        ("BreitWigner", "breit_wigner", [*one, phsp]),
        ("BreitWigner", "breit_wigner_default", one[:3]),
        ("BreitWigner", "width_of", [*one, phsp]),
    ):
        about = DYN + cls + (".energy_dependent_width" if name == "width_of" else ".evaluate")
        r.same(name, SL + name, SL + "ref_" + name, args, about=about)
    for L in (0, 1):
        for m1 in (num(0), sym("m1", EXPR_T)):
            for m2 in (num(0), sym("m2", EXPR_T)):
                r.same(f"Breit-Wigner with L={L}, masses {T.show(m1)}, {T.show(m2)}", SL + "breit_wigner", SL + "ref_breit_wigner",
                       [s, m, w, m1, m2, num(L), one[6], phsp], about=DYN + "BreitWigner.evaluate")
    ch = [tup(*numbers(" ".join(f"{x}_{i}" for x in ("w", "ma", "mb", "L", "R")))) for i in range(3)]
    for n in range(1, 4):
        r.same(f"{n} channels", SL + "multichannel", SL + "ref_multichannel", [s, m, lst(*ch[:n])],
               about=DYN + "MultichannelBreitWigner.evaluate")
    r.same("any channels", SL + "multichannel", SL + "ref_multichannel", [s, m, sym("channels", ("list", ("tuple", [EXPR_T] * 5)))],
           about=DYN + "MultichannelBreitWigner.evaluate")


@prop("L02", 76, "Breit-Wigner of every chain and configuration compared with the reference")
def breit_wigner_builder(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    B = "ampform_dpd.dynamics.builder."
    about = B + "BreitWignerBuilder.__call__"
    phsp = sym("phsp", ("callable", EXPR_T))
    st = model_states("bs")
    chains = []
    for k in (1, 2, 3):
        chains.append((f"spectator {k}", sym(f"bchain{k}", model_chain(k, st))))
        chains.append((f"spectator {k} (reversed)", sym(f"bchain{k}s", model_chain(k, st, True))))
    chains.append(("couplings may be missing", sym("bchain1n", model_chain(1, st, ls=(OPT_LS, OPT_LS)))))
    for label, c in chains:
        for x in itertools.product(BOOLS, BOOLS, BOOLS):
            r.same(f"{label}, configuration {T.show(tup(*x))}", SL + "built", SL + "ref_built", [c, *x, phsp], about=about,
                   unordered=True, known=[("KF1", SL + "variant_built")])
        r.same(f"{label}, defaults", SL + "built_default", SL + "ref_built_default", [c], about=about, unordered=True,
               known=[("KF1", SL + "variant_built_default")])
        r.same(f"{label}, predefined builder", SL + "built_predefined", SL + "ref_built_default", [c], about=about,
               unordered=True, known=[("KF1", SL + "variant_built_default")])
    for i, j in itertools.permutations((1, 2, 3), 2):
        node = sym(f"bnode{i}{j}", ("cls", NODE, (("parent", RESONANCE), ("child1", st[i]), ("child2", st[j]))))
        r.same(f"mass squared of {i} and {j}", B + "get_mandelstam_s", SL + "ref_mandelstam", [node])


# ---------------------------------------------------------------- serialized models
SJ = "specs.serial."
IO = "ampform_dpd.io.serialization."
TEXT = ("str",)


def jdict(**kw):
    return T.mkdict([T.kv(string(k), v) for k, v in kw.items()])


def jstate(i, label):
    return jdict(name=sym(f"{label}name{i}", TEXT), index=num(i), spin=sym(f"{label}spin{i}", TEXT),
                 mass=sym(f"{label}mass{i}", N))


def jnode(ids, form="list"):
    i, j, k = ids
    seq = lst if form == "list" else tup
    return seq(num(i), num(j)), k


def jvertex(label, kind, node, ff=None, **kw):
    d = dict(type=string(kind), node=node)
    if kind in ("helicity", "parity"):
        d["helicities"] = lst(sym(f"{label}h1", TEXT), sym(f"{label}h2", TEXT))
    if kind == "ls":
        d["l"], d["s"] = sym(f"{label}l", TEXT), sym(f"{label}s", TEXT)
    if ff is not None:
        d["formfactor"] = ff
    d.update(kw)
    return jdict(**d)


def jchain(label, ids, kinds=("helicity", "helicity"), flipped=False, reverse=False, parametrization=None, ffs=(None, None),
           name=None, **kw):
    """Definition of a chain: i and j come from the resonance, k is the spectator."""
    i, j, k = ids
    inner = lst(num(i), num(j))
    outer = lst(num(k), inner) if flipped else lst(inner, num(k))
    vertices = [jvertex(f"{label}p", kinds[0], outer, ffs[0], **kw.get("production", {})),
                jvertex(f"{label}d", kinds[1], inner, ffs[1], **kw.get("decay", {}))]
    if reverse:
        vertices.reverse()
    prop_ = jdict(spin=sym(f"{label}spin", TEXT), node=inner,
                  parametrization=parametrization or sym(f"{label}par", TEXT))
    return jdict(name=name or sym(f"{label}name", TEXT), propagators=lst(prop_), vertices=lst(*vertices), topology=outer,
                 weight=sym(f"{label}weight", TEXT))


def jmodel(label, chains, functions=None, reference=(1, (2, 3)), order=(1, 2, 3), distributions=1):
    k, (i, j) = reference
    ref = lst(lst(num(i), num(j)), num(k))

    def dist(n):
        return jdict(name=sym(f"{label}dist{n}", TEXT), type=string("HadronicUnpolarizedIntensity"), decay_description=jdict(
            kinematics=jdict(initial_state=jstate(0, label + "i"), final_state=lst(*[jstate(i, label + "f") for i in order])),
            reference_topology=ref, chains=chains if isinstance(chains, T.Term) else lst(*chains)))

    return jdict(distributions=lst(*[dist(n) for n in range(distributions)]),
                 functions=functions if isinstance(functions, T.Term) else lst(*(functions or [])))


CYCLIC = [(1, 2, 3), (2, 3, 1), (3, 1, 2)]
ORDERS = list(itertools.permutations((1, 2, 3)))
LATEX_T = sym("to_latex", ("callable", TEXT))


@prop("J01", 116, "conversion of the decay of a serialized model compared with the reference conversion")
def serialized_decay(r):
    D, F = IO + "decay.", IO + "format."
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    for n in (0, 1, 2):
        m = jmodel(f"jd{n}", [jchain(f"jd{n}c", (1, 2, 3))], distributions=n)
        for name, ref in (("get_distribution_def", "ref_distribution"), ("get_decay_chains", "ref_chains"),
                          ("get_reference_topology", "ref_reference")):
            r.same(f"{name} with {n} distributions", F + name, SJ + ref, [m])
    m = jmodel("jf", [], functions=[jdict(name=sym(f"fname{i}", TEXT), type=sym(f"ftype{i}", TEXT)) for i in range(3)])
    r.same("lookup of a function", F + "get_function_definition", SJ + "ref_function", [sym("wanted", TEXT), m])
    m = jmodel("jf0", [])
    r.same("lookup of a function without functions", F + "get_function_definition", SJ + "ref_function", [sym("wanted", TEXT), m])
    for order in ORDERS:
        m = jmodel("js" + "".join(map(str, order)), [jchain("jsc", (1, 2, 3))], order=order)
        for name, ref in (("get_states", "ref_states"), ("get_initial_state", "ref_initial_state"), ("get_final_state", "ref_final_state")):
            r.same(f"{name}, order {order}", D + name, SJ + ref, [m])
            r.same(f"{name}, order {order}, with LaTeX", D + name, SJ + ref, [m, LATEX_T])
    topologies = [lst(x) if not isinstance(x, list) else lst(*x) for x in (
        [num(1), lst(num(2), num(3))], [lst(num(1), num(2)), num(3)], [num(1), num(2)], [lst(num(1), num(2)), lst(num(3), num(1))],
        [num(2), num(2)], [num(1), num(2), num(3)])]
    for t in topologies:
        r.same(f"spectator of {T.show(t)}", D + "get_spectator_id", SJ + "ref_spectator", [t])
    states = T.mkdict([T.kv(num(i), sym(f"jx{i}", final_state(i))) for i in (1, 2, 3)])
    top = sym("jx0", final_state(0))
    for ids in ORDERS:
        for flipped, reverse in itertools.product((False, True), repeat=2):
            c = jchain("jc" + "".join(map(str, ids)), ids, flipped=flipped, reverse=reverse)
            for latex in ([], [LATEX_T]):
                r.same(f"chain {ids}, flipped={flipped}, reversed={reverse}", D + "to_decay_chain", SJ + "ref_to_decay_chain",
                       [c, top, states, *latex])
    inner = lst(num(1), num(2))
    bad = [lst(jvertex("jb1", "helicity", inner)), lst(jvertex("jb2", "helicity", lst(inner, num(3)))), lst()]
    for i, v in enumerate(bad):
        c = jdict(name=sym("jbname", TEXT), propagators=lst(jdict(spin=sym("jbspin", TEXT), node=inner)), vertices=v)
        r.same(f"incomplete chain {i}", D + "to_decay_chain", SJ + "ref_to_decay_chain", [c, top, states])
    for n, cs in enumerate(([], [(1, 2, 3)], [(1, 2, 3), (2, 3, 1)], [(3, 1, 2), (3, 1, 2), (2, 3, 1)])):
        m = jmodel(f"jm{n}", [jchain(f"jm{n}c{i}", ids) for i, ids in enumerate(cs)])
        r.same(f"decay with chains {cs}", D + "to_decay", SJ + "ref_to_decay", [m])
        r.same(f"decay with chains {cs}, with LaTeX", D + "to_decay", SJ + "ref_to_decay", [m, LATEX_T])
        r.same(f"subsystems of {cs}", IO + "amplitude.get_existing_subsystem_ids", SJ + "ref_subsystems", [m])


@prop("J02", 175, "recoupling of every kind of vertex compared with the reference")
def vertices(r):
    A = IO + "amplitude."
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    lambdas = numbers("la lb la0 lb0 f")
    r.same("value of a helicity vertex", SJ + "helicity_recoupling", SJ + "ref_helicity_recoupling", lambdas[:4],
           about=A + "HelicityRecoupling.evaluate")
    r.same("value of a parity vertex", SJ + "parity_recoupling", SJ + "ref_parity_recoupling", lambdas,
           about=A + "ParityRecoupling.evaluate")
    r.same("value of an LS vertex", SJ + "ls_recoupling", SJ + "ref_ls_recoupling", numbers("la lb ell s ja jb j"),
           about=A + "LSRecoupling.evaluate")

    def vertex(label, m, n, v, c=0):
        r.same(label, A + "formulate_recoupling", SJ + "ref_recoupling", [m, num(c), num(v)])

    for kind in ("helicity", "parity", "ls"):
        for ids in ORDERS:
            for flipped, reverse in itertools.product((False, True), repeat=2):
                label = f"jv{kind}" + "".join(map(str, ids))
                m = jmodel(label, [jchain(label + "a", (3, 1, 2)), jchain(label + "b", ids, (kind, kind), flipped, reverse)])
                for v in (0, 1):
                    vertex(f"{kind} vertex {v}, chain {ids}, flipped={flipped}, reversed={reverse}", m, 1, v, 1)
    for ff in ("+", "-", "", " - ", " + ", " ", "x", "+-"):
        m = jmodel("jpf", [jchain("jpfc", (1, 2, 3), ("parity", "parity"), production=dict(parity_factor=string(ff)),
                                  decay=dict(parity_factor=string(ff)))])
        for v in (0, 1):
            vertex(f"parity vertex {v} with factor {ff!r}", m, 1, v)
    m = jmodel("jpg", [jchain("jpgc", (1, 2, 3), ("parity", "helicity"), production=dict(parity_factor=sym("jsign", TEXT)))])
    vertex("parity vertex with any factor", m, 1, 0)
    m = jmodel("jpu", [jchain("jpuc", (1, 2, 3), ("other", "mixed"))])
    for v in (0, 1, 2, -1):
        vertex(f"vertex {v} of an unknown type", m, 1, v)
    for n in (0, 1, 3):
        inner = lst(num(1), num(2))
        c = jdict(name=sym("jwname", TEXT), propagators=lst(jdict(spin=sym("jwspin", TEXT), node=inner)),
                  vertices=lst(*[jvertex(f"jw{i}", "helicity", inner) for i in range(n)]))
        vertex(f"{n} vertices", jmodel("jwm", [c]), 1, 0)
    for n in (0, 2):
        inner = lst(num(1), num(2))
        c = jdict(name=sym("jzname", TEXT), propagators=lst(*[jdict(spin=sym(f"jz{i}spin", TEXT), node=inner) for i in range(n)]),
                  vertices=lst(jvertex("jzp", "ls", lst(inner, num(3))), jvertex("jzd", "ls", inner)))
        for v in (0, 1):
            vertex(f"{n} propagators, vertex {v}", jmodel("jzm", [c]), 1, v)


def bw_function(label, name="bw"):
    return jdict(name=string(name), type=string("BreitWigner"), l=sym(label + "l", TEXT), **{
        x: sym(label + x, N) for x in ("mass", "width", "ma", "mb", "d")})


def ff_function(label, name="ff"):
    return jdict(name=string(name), type=string("BlattWeisskopf"), l=sym(label + "l", TEXT), radius=sym(label + "radius", N))


def serial_model(label, ids, kinds=("helicity", "helicity"), flipped=False, reverse=False, ff=(None, None), **kw):
    c = jchain(label + "c", ids, kinds, flipped, reverse, string("bw"), [x and string(x) for x in ff], **kw)
    return jmodel(label, [c], functions=[bw_function(label + "bw"), ff_function(label + "ff"), ff_function(label + "fg", "fg")])


@prop("J03", 100, "amplitude and weight of each chain compared with the reference formula")
def chain_amplitudes(r):
    A = IO + "amplitude."
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    lambdas = numbers("jl0 jl1 jl2 jl3")

    def chain(label, m, extra=()):
        r.same(label, A + "formulate_chain_amplitude", SJ + "ref_chain_amplitude", [*lambdas, m, num(0), *extra], unordered=True)

    for ids in ORDERS:
        for flipped, reverse in itertools.product((False, True), repeat=2):
            for kinds in (("helicity", "helicity"), ("parity", "parity"), ("helicity", "parity")):
                label = "ja" + "".join(map(str, ids)) + kinds[0]
                m = serial_model(label, ids, kinds, flipped, reverse)
                chain(f"{kinds} chain {ids}, flipped={flipped}, reversed={reverse}", m)
        for ff in (("ff", None), (None, "ff"), ("ff", "fg")):
            m = serial_model("jaff", ids, ff=ff)
            chain(f"chain {ids} with form factors {ff}", m)
        m = serial_model("jal", ids)
        chain(f"chain {ids} with LaTeX", m, [LATEX_T])
    for kinds in (("ls", "helicity"), ("helicity", "ls"), ("ls", "ls")):
        chain(f"{kinds} chain", serial_model("jls", (1, 2, 3), kinds))
    builders = T.mkdict([T.kv(string("BreitWigner"), sym("jbuilder", ("callable", ("cls", MOD + "DefinedExpression", None))))])
    chain("chain with another builder", serial_model("jab", (1, 2, 3)), [LATEX_T, builders])


def multichannel_function(label, n, name="mbw"):
    channels = [jdict(l=sym(f"{label}l{i}", TEXT), **{x: sym(f"{label}{x}{i}", N) for x in ("gsq", "ma", "mb", "d")}) for i in range(n)]
    return jdict(name=string(name), type=string("MultichannelBreitWigner"), mass=sym(label + "mass", N), channels=lst(*channels))


@prop("J04", 258, "dynamics of every definition compared with the reference; chains do not share parameters")
def serialized_dynamics(r):
    D = IO + "dynamics."
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    nodes = [num(i) for i in range(4)]
    for make in (lst, tup):
        inner = [make(num(i), num(j)) for i, j in itertools.permutations((1, 2, 3), 2)]
        nodes += inner + [make(num(1), inner[0]), make(inner[0], num(3)), make(num(1), num(2), num(3)), make(num(1)), make(inner[0], inner[1])]
    for n in nodes:
        r.same(f"mass symbol of {T.show(n)}", D + "to_mass_symbol", SJ + "ref_mass_symbol", [n])
        if n.op == "seq" and len(n.args[1]) == 2:
            r.same(f"mass squared of {T.show(n)}", D + "to_mandelstam_symbol", SJ + "ref_mandelstam_symbol", [n])
    functions = [bw_function("jdb"), ff_function("jdf"), multichannel_function("jdm", 2), bw_function("jdc", "bw2"),
                 jdict(name=string("odd"), type=string("Other"))]
    m = jmodel("jdy", [], functions=functions)
    name = sym("jdname", TEXT)
    for i, j in itertools.permutations((1, 2, 3), 2):
        for key in ("bw", "bw2", "missing"):
            p = jdict(node=lst(num(i), num(j)), spin=sym("jdspin", TEXT), parametrization=string(key))
            r.same(f"Breit-Wigner {key} of {i} and {j}", SJ + "breit_wigner_of", SJ + "ref_breit_wigner_of", [p, name, m],
                   about=D + "formulate_breit_wigner", unordered=True)
        for n in range(5):
            mm = jmodel("jdn", [], functions=[multichannel_function("jdn", n)])
            p = jdict(node=lst(num(i), num(j)), spin=sym("jdspin", TEXT), parametrization=string("mbw"))
            r.same(f"{n} channels of {i} and {j}", SJ + "multichannel_of", SJ + "ref_multichannel_of", [p, name, mm],
                   about=D + "formulate_multichannel_breit_wigner", unordered=True)
    for ids in ORDERS:
        for flipped in (False, True):
            for ff in (None, "ff", "", "odd", "missing"):
                c = jchain("jdv", ids, flipped=flipped, ffs=(None if ff is None else string(ff),) * 2)
                for v, what in ((0, "production"), (1, "decay")):
                    vertex = list(dict(kvs(c))[string("vertices")].args[1])[v].args[0]
                    r.same(f"form factor {ff} of the {what} vertex, chain {ids}, flipped={flipped}", SJ + "form_factor_of",
                           SJ + "ref_form_factor_of", [vertex, m], about=D + "formulate_form_factor", unordered=True)
    builder = ("callable", ("cls", MOD + "DefinedExpression", None))
    extra = {
        "none": [],
        "no builders": [LATEX_T, T.NONE],
        "an empty table": [LATEX_T, T.mkdict([])],
        "own Breit-Wigner": [LATEX_T, T.mkdict([T.kv(string("BreitWigner"), sym("jdx1", builder))])],
        "own type": [LATEX_T, T.mkdict([T.kv(string("Other"), sym("jdx2", builder))])],
        "own type and channels": [LATEX_T, T.mkdict([T.kv(string("Other"), sym("jdx2", builder)),
                                                      T.kv(string("MultichannelBreitWigner"), sym("jdx3", builder))])],
    }
    for what, args in extra.items():
        for keys in ([], ["bw"], ["mbw"], ["odd"], ["missing"], ["bw", "bw2"], ["odd", "bw"]):
            ps = lst(*[jdict(node=lst(num(1), num(2)), spin=sym("jdspin", TEXT), parametrization=string(k)) for k in keys])
            c = jdict(name=name, propagators=ps)
            r.same(f"dynamics {keys}, additional builders: {what}", SJ + "dynamics_of", SJ + "ref_dynamics_of", [c, m, *args],
                   about=D + "formulate_dynamics", unordered=True)
    lambdas = numbers("jl0 jl1 jl2 jl3")
    both = [bw_function("jk1", "p1"), bw_function("jk2", "p2")]
    chans = [multichannel_function("jk3", 2, "p1"), multichannel_function("jk4", 2, "p2")]
    ffs = [ff_function("jk5", "f1"), ff_function("jk6", "f2")]
    for what, fs, pair, known in (
        ("Breit-Wigners", both, (None, None), True), ("multi-channel Breit-Wigners", chans, (None, None), False),
    ):
        fs = [masses_shared(f) for f in fs]
        cs = [jchain(f"jkc{i}", (1, 2, 3), parametrization=string(f"p{i}"), name=string(f"R{i}")) for i in (1, 2)]
        r.same(f"chains with {what}", SJ + "conflicts", SJ + "ref_conflicts", [*lambdas, jmodel("jkm", cs, functions=fs)],
               about=IO + "amplitude.formulate_chain_amplitude",
               known=[("KF2", SJ + "variant_conflicts")] if known else ())
    for what, pos in (("production", 0), ("decay", 1)):
        fs = [masses_shared(f) for f in chans] + ffs
        cs = [jchain(f"jkc{i}", (1, 2, 3), parametrization=string(f"p{i}"), name=string(f"R{i}"),
                     ffs=tuple(string(f"f{i}") if k == pos else None for k in (0, 1))) for i in (1, 2)]
        r.same(f"chains with form factors ({what})", SJ + "conflicts", SJ + "ref_conflicts", [*lambdas, jmodel("jkm", cs, functions=fs)],
               about=IO + "amplitude.formulate_chain_amplitude", known=[("KF2", SJ + "variant_conflicts")])


def masses_shared(f):
    """The same masses of the decay products in every definition."""
    def channel(c, first):
        return T.mkdict([T.kv(k, sym("jk" + k.args[0], N) if first and k.args[0] in ("ma", "mb") else v) for k, v in kvs(c)])

    out = []
    for k, v in kvs(channel(f, True)):
        if k.args[0] == "channels":
            v = lst(*[channel(s.args[0], i == 0) for i, s in enumerate(v.args[1])])
        out.append(T.kv(k, v))
    return T.mkdict(out)


def kvs(d):
    return [s.args for s in d.args[0]]


def spinful(m, spins):
    """The serialized model `m` with the given spins of the states."""
    def state(d):
        i = T.int_of(dict(kvs(d))[string("index")])
        return T.mkdict([T.kv(k, string(spins[i]) if k.args[0] == "spin" else v) for k, v in kvs(d)])

    def go(t):
        if t.op == "dict":
            ks = dict(kvs(t))
            if string("index") in ks and string("spin") in ks:
                return state(t)
            return T.mkdict([T.kv(k, go(v)) for k, v in ks.items()])
        if t.op == "seq" and all(s.op == "el" for s in t.args[1]):
            return T.seq(t.args[0], [T.el(go(s.args[0])) for s in t.args[1]])
        return t

    return go(m)


@prop("J05", 69, "complete serialized amplitude model compared with the reference")
def serialized_model(r):
    A = IO + "amplitude."
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    lambdas = numbers("jl0 jl1 jl2 jl3")

    def model(label, chains, **kw):
        cs = [jchain(f"{label}c{n}", ids, parametrization=string("bw")) for n, ids in enumerate(chains)]
        return jmodel(label, cs, functions=[bw_function("jebw")], **kw)

    for refs in ((1, (2, 3)), (2, (3, 1)), (3, (1, 2))):
        for chains in ([(2, 3, 1)], [(3, 1, 2), (1, 2, 3)], [(1, 2, 3), (2, 3, 1), (1, 3, 2)], []):
            m = model(f"je{refs[0]}", chains, reference=refs)
            r.same(f"aligned amplitude, reference {refs[0]}, chains {chains}", A + "formulate_aligned_amplitude", SJ + "ref_aligned_of",
                   [m, *lambdas])
            r.same(f"aligned amplitude, reference {refs[0]}, chains {chains}, values", A + "formulate_aligned_amplitude",
                   SJ + "ref_aligned_of", [m, *[num(T.Fraction(x, 2)) for x in (1, -1, 0, 2)]])
    for spins in (("0", "0", "0", "0"), ("1/2", "1/2", "0", "0"), ("0", "1", "0", "1/2")):
        for chains in ([(2, 3, 1)], [(3, 1, 2), (1, 2, 3)], [(1, 2, 3), (2, 3, 1), (1, 2, 3)], [(1, 3, 2)], []):
            m = spinful(model("jg" + "".join(map(str, chains)), chains), spins)
            for what, args in (("", []), (", cleaned up", [T.TRUE]), (", with LaTeX", [T.FALSE, LATEX_T])):
                r.same(f"model with spins {spins}, chains {chains}{what}", A + "formulate", SJ + "ref_formulate", [m, *args], unordered=True)


HI = "specs.history."


def history_decays():
    st = model_states("hs")
    chains = [sym(f"hc{n}", model_chain(k, st)) for n, k in enumerate((1, 3, 1))]
    d = model_decay("hd", st, chains)
    small = spin_states("ht", [half(x) for x in (1, 1, 0, 0)])
    e = mixed_decay("he", small, (2, 1))
    return st, chains, d, e


def setup(prod, dec, everything=False):
    return tup(*[T.boolean(x) for x in (prod, dec, everything)])


def options(reference=None, cleanup=False, coefficients=False):
    return tup(num(reference) if reference else T.NONE, T.boolean(cleanup), T.boolean(coefficients))


def serial_models(label, spins=("1/2", "1/2", "0", "0")):
    out = []
    for n, chains in enumerate(([(3, 1, 2), (1, 2, 3)], [(2, 3, 1)])):
        cs = [jchain(f"{label}{n}c{i}", ids, parametrization=string("bw")) for i, ids in enumerate(chains)]
        out.append(spinful(jmodel(f"{label}{n}", cs, functions=[bw_function(f"{label}{n}bw")]), spins))
    return out


@prop("H01", 52, "results of calls compared with those of the same calls on fresh objects")
def histories(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    st, chains, d, e = history_decays()
    kw = dict(cuts={SPIN + "create_spin_range": spin_cut}, unordered=True, effects=False)  # earlier calls may warn
    about = BUILDER + ".formulate"
    key, value = sym("hkey", SYMBOL_T), sym("hvalue", N)
    all_options = [options(), options(3, True), options(1, False, True)]
    for label, dd in (("any spins", d), ("spins 1/2, 1/2, 0, 0", e)):
        for c in (setup(True, True), setup(False, True, True), setup(False, False)):
            for a, b in ((0, 1), (1, 0), (2, 0), (0, 2)):
                if label == "any spins" and r.tier != "thorough" and (a, b) in ((0, 2), (1, 0)):
                    continue
                r.same(f"{label}, configuration {T.show(c)}, options {T.show(all_options[b])} after {T.show(all_options[a])}",
                       HI + "again", HI + "ref_again", [dd, c, all_options[a], all_options[b]], about=about, **kw)
        r.same(f"{label}, after the parts", HI + "after_parts", HI + "ref_after_parts",
               [dd, setup(True, False), num(1), num(3), tup(*LAMBDAS), options()], about=about, **kw)
        r.same(f"{label}, state of the builder", HI + "builder_after", HI + "ref_builder_after", [dd, setup(True, False), options()],
               about=about, **kw)
    for x, y, what in ((d, e, "another decay"), (e, d, "another decay (2)"), (e, e, "the same decay")):
        r.same(f"after a builder for {what}", HI + "other_builder", HI + "ref_other_builder",
               [x, setup(True, False), options(), y, setup(False, True), options(None, True, True)], about=about, **kw)
    b = [sym(f"hdyn{i}", ("callable", ("cls", MOD + "DefinedExpression", None))) for i in range(2)]
    for label, early, late in (("a chain", [], [(chains[0], b[0])]), ("a chain again", [(chains[0], b[0])], [(chains[0], b[1])]),
                               ("two chains", [(chains[1], b[0])], [(chains[0], b[1])])):
        r.same(f"dynamics for {label} after formulating", HI + "registered_late", HI + "ref_registered_late",
               [d, setup(True, True), lst(*[tup(*x) for x in early]), lst(*[tup(*x) for x in late]), options()], about=about, **kw)
    r.same("dynamics registered with another builder", HI + "registered_elsewhere", HI + "ref_registered_elsewhere",
           [d, setup(True, True), lst(tup(chains[0], b[0])), options()], about=about, **kw)
    for c in (setup(True, True), setup(False, True)):
        r.same(f"no dynamics again, configuration {T.show(c)}", HI + "default_dynamics_again", HI + "ref_default_dynamics_again",
               [d, c, chains[0], chains[1], options(), key, value], about=MOD + "DynamicsConfigurator.get_builder", **kw)
    B = "ampform_dpd.dynamics.builder."
    phsp = sym("hphsp", ("callable", EXPR_T))
    phsp2 = sym("hphsp2", ("callable", EXPR_T))
    for c in (setup(True, True, True), setup(True, False, False)):
        r.same(f"Breit-Wigner {T.show(c)} after another phase-space factor", HI + "other_phase_space_first", HI + "ref_other_phase_space_first",
               [c, chains[0], phsp, phsp2], about=B + "BreitWignerBuilder.__call__", unordered=True)
    for c1, c2 in ((setup(True, True, True), setup(False, True, False)), (setup(False, False, False), setup(True, True, True))):
        r.same(f"Breit-Wigner {T.show(c1)} after others", HI + "other_chain_first", HI + "ref_other_chain_first",
               [c1, c2, chains[0], chains[1], phsp, key, value], about=B + "BreitWignerBuilder.__call__", unordered=True)
    r.same("predefined Breit-Wigner again", HI + "predefined_again", HI + "ref_predefined_again", [chains[0], chains[1], key, value],
           about=B + "BreitWignerBuilder.__call__", unordered=True)
    m1, m2 = serial_models("hj")
    for a, b in ((tup(T.FALSE), tup(T.TRUE)), (tup(T.TRUE), tup(T.FALSE))):
        for x, y in ((m1, m2), (m2, m1)):
            r.same(f"serialized model {T.show(a)} after others", HI + "serialized_again", HI + "ref_serialized_again",
                   [x, a, y, b, key, value], about=IO + "amplitude.formulate", unordered=True)
    for ffs in ((None, None), (string("ff"), None), (string("ff"), string("ff"))):
        cs = [jchain(f"hd{i}", ids, parametrization=string("bw"), ffs=ffs) for i, ids in enumerate([(3, 1, 2), (1, 2, 3)])]
        m = spinful(jmodel("hd", cs, functions=[bw_function("hdbw"), ff_function("hdff")]), ("1/2", "1/2", "0", "0"))
        r.same(f"dynamics of serialized chains with form factors {[x and T.show(x) for x in ffs]} again", HI + "serialized_dynamics_again",
               HI + "ref_serialized_dynamics_again", [m, *cs, key, value], about=IO + "dynamics.formulate_dynamics", unordered=True)
    r.same("serialized decay after another", HI + "serialized_decay_again", HI + "ref_serialized_decay_again", [m1, m2],
           about=IO + "decay.to_decay")
    triples = [tup(*[num(x) for x in t]) for t in ((1, 2, 3), (2, 3, 1), (3, 1, 2), (1, 3, 2), (0, 1, 2))]
    for n in range(len(triples)):
        r.same(f"angles after others ({n})", HI + "angles_again", HI + "ref_angles_again",
               [lst(*triples[:n + 1]), lst(*reversed(triples))], about="ampform_dpd.angles.formulate_zeta_angle")
    for x in ((1, 1, 0), (2, 1, 1), (0, 2, 2)):
        r.same(f"spins {x} again", HI + "spins_again", HI + "ref_spins_again", [*[half(i) for i in x], value],
               about=SPIN + "create_spin_range")


@prop("H02", 20, "results after other results were changed compared with untouched results")
def independent_results(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    st, chains, d, e = history_decays()
    kw = dict(cuts={SPIN + "create_spin_range": spin_cut}, unordered=True, about=BUILDER + ".formulate")
    key, value = sym("hkey", SYMBOL_T), sym("hvalue", N)
    for label, dd in (("any spins", d), ("spins 1/2, 1/2, 0, 0", e)):
        for c in (setup(True, True), setup(False, False)):
            r.same(f"{label}, configuration {T.show(c)}, after a changed model", HI + "after_spoiling", HI + "ref_after_spoiling",
                   [dd, c, options(), options(), key, value], **kw)
            r.same(f"{label}, configuration {T.show(c)}, before a changed model", HI + "kept", HI + "ref_kept",
                   [dd, c, options(), options(1), key, value], **kw)
            r.same(f"{label}, configuration {T.show(c)}, parts of a model", HI + "parts_apart", HI + "ref_parts_apart",
                   [dd, c, options(), key, value], **kw)
    x = sym("hexpr", EXPR_T)
    pars = T.mkdict([T.kv(sym("hp0", SYMBOL_T), sym("hv0", N))])
    for c in (setup(True, True), setup(False, False)):
        for what, q in (("a chain", chains[0]), ("another chain", chains[1])):
            r.same(f"shared dynamics for {what}, configuration {T.show(c)}", HI + "shared_dynamics", HI + "ref_shared_dynamics",
                   [d, c, q, tup(x, pars), options(), key, value], **kw)
    m1, m2 = serial_models("hk")
    for a, b in ((tup(T.FALSE), tup(T.TRUE)), (tup(T.TRUE), tup(T.FALSE))):
        for x, y in ((m1, m2), (m2, m1)):
            r.same(f"serialized model {T.show(a)} before changed ones", HI + "serialized_kept", HI + "ref_serialized_kept",
                   [x, a, y, b, key, value], about=IO + "amplitude.formulate", unordered=True)


RD = "specs.rendering."
TAB = "ampform_dpd.io."


@prop("I01", 34, "Markdown tables compared with the reference")
def tables(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    fn = TAB + "as_markdown_table"
    st = model_states("ts")
    for make in (lst, tup):
        r.same(f"empty {make.__name__}", fn, RD + "ref_empty", [make()])
        for what, x in (("numbers", num(1)), ("texts", sym("ttext", TEXT))):
            r.same(f"{make.__name__} of {what}", fn, RD + "ref_not_supported", [make(x, x)])
    particle = ("cls", DEC + "Particle", (), "exact")
    state = ("cls", DEC + "State", (), "exact")
    plain = (("parity", ("none",)), ("spin", num(1)))
    p2, s2 = (("cls", DEC + x, plain, "exact") for x in ("Particle", "State"))
    for n, kinds in enumerate(([particle], [state], [particle, particle], [state, state], [particle, state], [state, particle],
                               [s2, s2, s2, state], [p2, s2, particle], [p2, p2, p2, particle])):
        items = [sym(f"titem{n}_{i}", k) for i, k in enumerate(kinds)]
        r.same(f"table {n} of {[k[1].rsplit('.')[-1] for k in kinds]}", fn, RD + "ref_particle_table", [lst(*items)])
    for n in (1, 2, 3):
        for ls in ((LS, LS), (OPT_LS, OPT_LS), (LS, ("none",)), (("none",), LS), (("none",), ("none",))):
            res = [model_chain(k, st, ls=ls) for k in (1, 3, 2)[:n]]
            if n == 3:
                res = [refined(t, plain) for t in res[:2]] + res[2:]
            cs = [sym(f"tchain{n}{i}", t) for i, t in enumerate(res)]
            r.same(f"table of {n} chains, couplings {ls_text(ls)}", fn, RD + "ref_chain_table", [lst(*cs)])
    for what, typ in (("particles", particle), ("states", state)):
        r.same(f"table of any {what}", fn, RD + "ref_any_table", [sym(f"tany{what}", ("list", typ))])
    r.same("table of a decay", fn, RD + "ref_table", [mixed_decay("tdecay", st, (1, 3))])
    r.same("table of any decay", fn, RD + "ref_table", [model_decay("tdecayany", st, model_chain(1, st))])


def ls_text(ls):
    return tuple({"LSCoupling": "known"}.get(x[1].rsplit(".")[-1], x[0]) if x[0] == "cls" else x[0] for x in ls)


def refined(chain, fields):
    """The type of a chain of which the resonance has the given fields."""
    def go(x):
        if isinstance(x, tuple):
            if x == RESONANCE:
                return ("cls", DEC + "Particle", fields, "exact")
            return tuple(map(go, x))
        return [go(y) for y in x] if isinstance(x, list) else x

    return go(chain)


@prop("I02", 103, "LaTeX of every value class and lineshape compared with the reference")
def latex(r):
    r.cfg.skip_post_init = (DEC + "ThreeBodyDecayChain", DEC + "ThreeBodyDecay")  # D01, D03
    st = model_states("xs")
    objects = [("particle", sym("xparticle", ("cls", DEC + "Particle", (), "exact"))), ("state", sym("xstate", ("cls", DEC + "State", (), "exact")))]
    for what, p in objects:
        r.same(what, RD + "plain", RD + "ref_particle", [p], about=TAB + "as_markdown_table")
        r.same(f"{what} with spin and parity", RD + "particle_with_jp", RD + "ref_particle_with_jp", [p], about=TAB + "as_markdown_table")
        r.same(f"spin and parity of {what}", RD + "particle_only_jp", RD + "ref_jp", [p], about=TAB + "as_markdown_table")
        r.same(f"spin and parity of {what}, twice", RD + "particle_both", RD + "ref_jp", [p], about=TAB + "as_markdown_table")
    plain = (("parity", ("none",)), ("spin", num(1)))

    def named_state(label, i, fields):
        return sym(label, ("cls", DEC + "State", (("index", num(i)), *fields), "exact"))

    for k in (1, 2, 3):
        for sw in (False, True):
            for ls in ((LS, LS), (OPT_LS, OPT_LS)):
                what = f"chain {k}, swapped={sw}, couplings {ls_text(ls)}"
                c = sym(f"xchain{k}{sw}{ls_text(ls)}", model_chain(k, st, sw, ls=ls))
                r.same(what, RD + "plain", RD + "ref_chain", [c], about=TAB + "as_markdown_table")
                for free in range(5):  # which particle has any spin and parity
                    xs = [named_state(f"xs{free}{i}", i, () if i == free else plain) for i in range(4)]
                    t = model_chain(k, xs, sw, ls=ls)
                    c = sym(f"xchain{k}{sw}{ls_text(ls)}{free}", t if free == 4 else refined(t, plain))
                    r.same(f"{what}, with spins, particle {free}", RD + "with_jp", RD + "ref_chain_with_jp", [c], about=TAB + "as_markdown_table")
    for i, j in ((1, 2), (3, 1)):
        node = sym(f"xnode{i}{j}", ("cls", NODE, (("parent", RESONANCE), ("child1", st[i]), ("child2", st[j]), ("interaction", OPT_LS))))
        r.same(f"node {i}{j}", RD + "plain", RD + "ref_node", [node], about=TAB + "as_markdown_table")
    for label, d in (("decay", mixed_decay("xdecay", st, (1, 3))), ("any decay", model_decay("xdecayany", st, model_chain(1, st)))):
        for how, ref in (("plain", "ref_decay"), ("with_jp", "ref_decay_with_jp")):
            r.same(f"{how} {label}", RD + how, RD + ref, [d], about=TAB + "as_markdown_table")
    printer = sym("printer", ("ext", "sympy.LatexPrinter", ()))
    A = IO + "amplitude."
    for name, about, args in (
        ("simple", DYN + "SimpleBreitWigner", "s m w"), ("breit_wigner", DYN + "BreitWigner", "s m w m1 m2 L R"),
        ("relativistic", DYN + "RelativisticBreitWigner", "s m w m1 m2 L R"), ("min_l", DYN + "BreitWignerMinL", "s l1 l2 x"),
        ("bugg", DYN + "BuggBreitWigner", "s x"), ("flatte", DYN + "FlattéSWave", "s x"),
        ("channel", DYN + "ChannelArguments", "s m w m1 m2 L R"), ("helicity", A + "HelicityRecoupling", "a b a0 b0"),
        ("parity", A + "ParityRecoupling", "a b a0 b0 f"), ("ls", A + "LSRecoupling", "a b l sp ja jb j"),
    ):
        r.same(f"LaTeX of {about}", RD + "latex_" + name, RD + "ref_latex_" + name, [printer, *numbers(args)], about=about)
    for n in range(1, 4):
        r.same(f"LaTeX of {n} channels", RD + "latex_multichannel", RD + "ref_latex_multichannel",
               [printer, *numbers("s m"), lst(*numbers("w1 w2 w3")[:n])], about=DYN + "MultichannelBreitWigner")
    for n in range(3):
        d = T.mkdict([T.kv(sym(f"xkey{i}", SYMBOL_T), sym(f"xval{i}", N)) for i in range(n)])
        r.same(f"expression with {n} parameters", RD + "latex_defined", RD + "ref_latex_defined", [sym("xexpr", EXPR_T), d],
               about=MOD + "DefinedExpression")
    r.same("expression with any parameters", RD + "latex_defined", RD + "ref_latex_defined", [sym("xexpr", EXPR_T), sym("xpars", PARAMS)],
           about=MOD + "DefinedExpression")


@prop("I03", 38, "numerical functions compared with the reference; nothing is cached under too few keys")
def numerical_functions(r):
    fn = TAB + "cached.lambdify"
    e = sym("cexpr", EXPR_T)
    backends = [string("jax"), string("numpy"), string("tensorflow"), sym("cbackend", TEXT)]
    d = [T.mkdict([T.kv(sym(f"ckey{i}", SYMBOL_T), sym(f"cval{i}", N)) for i in range(n)]) for n in range(3)] + [sym("cpars", PARAMS)]
    r.same("default backend", fn, RD + "ref_lambdify", [e])
    for b in backends:
        r.same(f"backend {T.show(b)}", fn, RD + "ref_lambdify", [e], {"backend": b})
        r.same(f"backend {T.show(b)} in place of the parameters", fn, RD + "ref_lambdify_short", [e, b])
        for n, x in enumerate(d):
            r.same(f"backend {T.show(b)}, parameters {n}", fn, RD + "ref_lambdify", [e, x], {"backend": b})
    for n, x in enumerate(d):
        r.same(f"default backend, parameters {n}", fn, RD + "ref_lambdify", [e, x])
        r.same(f"default backend, parameters {n} by name", fn, RD + "ref_lambdify", [e], {"parameters": x})
    for b in backends:
        r.same(f"backend {T.show(b)} after an update of the parameters", RD + "lambdify_after_update", RD + "ref_lambdify_after_update",
               [e, d[3], sym("cnew", PARAMS), b])
    r.same("default backend, parameters None", fn, RD + "ref_lambdify", [e, T.NONE])


HP = "specs.helpers."


@prop("I04", 2, "opt-in helpers compared with the reference")
def opt_in_helpers(r):
    printer = sym("iprinter", ("ext", "sympy.LatexPrinter", ()))
    indexed = sym("indexed", ("ext", "sympy.Indexed", ()))
    r.same("LaTeX of an indexed symbol", HP + "latex_of_indexed", HP + "ref_latex_of_indexed", [indexed, printer],
           about=TAB + "simplify_latex_rendering")
    r.same("muted warnings", TAB + "mute_ampform_warnings", HP + "ref_mute", [])


@prop("Q06", 2, "particle database compared with the reference; its definitions checked for consistency")
def particle_database(r):
    r.same("all particles", QA + "load_particles", HP + "ref_particles", [])
    where = Path(r.e.src) / "ampform_dpd" / "particle-definitions.yml"
    wrong = inconsistent_particles(where)
    r.fact("particle definitions", not wrong, str(where), "own definitions are valid QRules particles with consistent quantum numbers",
           "; ".join(wrong))


def inconsistent_particles(path):
    """Mistakes in a file with particle definitions."""
    import yaml

    if not path.exists():
        return ["the file does not exist"]
    out = []
    try:
        particles = yaml.safe_load(path.read_text())["particles"]
        known = {"name", "latex", "pid", "mass", "width", "spin", "charge", "isospin", "strangeness", "charmness", "bottomness", "topness",
                 "baryon_number", "electron_lepton_number", "muon_lepton_number", "tau_lepton_number", "parity", "c_parity", "g_parity"}
        for p in particles:
            n = p["name"]
            out += [f"{n}: unknown field {k}" for k in p if k not in known]
            spin, mass, width = Fraction(p["spin"]), p["mass"], p.get("width", 0)
            baryon, charge = p.get("baryon_number", 0), p.get("charge", 0)
            flavours = [p.get(k, 0) for k in ("strangeness", "charmness", "bottomness", "topness")]
            if spin < 0 or spin.denominator > 2:
                out.append(f"{n}: spin {spin}")
            if mass < 0 or width < 0:
                out.append(f"{n}: negative mass or width")
            if (2 * spin - baryon) % 2 and not any(p.get(k) for k in known if k.endswith("lepton_number")):
                out.append(f"{n}: spin {spin} does not fit baryon number {baryon}")
            for k in ("parity", "c_parity", "g_parity"):
                v = p.get(k)
                v = v.get("value") if isinstance(v, dict) else v
                if v not in (None, -1, 1):
                    out.append(f"{n}: {k} {v}")
            iso = p.get("isospin")
            if iso is not None:
                i, i3 = Fraction(iso["magnitude"]), Fraction(iso["projection"])
                if abs(i3) > i or (i - i3).denominator > 1:
                    out.append(f"{n}: isospin {i}, {i3}")
                if i3 + Fraction(baryon + sum(flavours), 2) != charge:
                    out.append(f"{n}: charge {charge} is not I3 + (B + S + C + B' + T) / 2")
        for k in ("name", "pid"):
            xs = [p[k] for p in particles]
            if len(set(xs)) != len(xs):
                out.append(f"two particles with the same {k}")
    except (KeyError, TypeError, ValueError, AttributeError, yaml.YAMLError) as e:
        out.append(f"{type(e).__name__}: {e}")
    return out
