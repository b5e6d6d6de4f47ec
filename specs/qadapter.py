"""Reference and drivers: adapter between QRules transitions and three-body decays."""
import attrs
import qrules
from qrules.quantum_numbers import InteractionProperties
from qrules.topology import FrozenTransition
from qrules.transition import ProblemSet, ReactionInfo

from ampform_dpd.adapter.qrules import (
    convert_transitions,
    filter_min_ls,
    normalize_state_ids,
    permute_equal_final_states,
    to_three_body_decay,
)
from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain


# ---- normalisation of state IDs
def norm_topology(t):
    edges = sorted(t.edges)
    return t.relabel_edges({old: new for new, old in enumerate(edges)})


def norm_transition(t):
    new_states = {}
    for new, old in enumerate(sorted(t.states)):
        new_states[new] = t.states[old]
    return attrs.evolve(t, topology=norm_topology(t.topology), states=new_states)


def norm_reaction(x):
    return ReactionInfo(transitions=[norm_transition(t) for t in x.transitions], formalism=x.formalism)


def norm_problem_set(x):
    return ProblemSet(
        initial_facts=norm_transition(x.initial_facts),
        solving_settings=norm_transition(x.solving_settings),
        topology=norm_topology(x.topology),
    )


def norm_iterable(xs):
    return [norm_transition(x) for x in xs]


def not_supported(x):
    raise NotImplementedError


def normalized(x):
    r = normalize_state_ids(x)
    return r


def normalized_pair(a, b):
    return normalize_state_ids([a, b])


def norm_pair(a, b):
    return [norm_transition(a), norm_topology(b)]


# ---- permutation of equal final states
def equal_ids(t):
    groups = {}
    for i, s in t.final_states.items():
        groups.setdefault(s.particle.name, []).append(i)
    big = [ids for ids in groups.values() if len(ids) > 1]
    return sorted(big[0]) if big else []


def permuted(t):
    return permute_equal_final_states(t)


def make_transition(topology, names, ids=(1, 2, 3)):
    return topology, names, ids


# ---- conversion
def ref_particle(q):
    return Particle(
        name=q.name,
        latex=q.name if q.latex is None else q.latex,
        spin=q.spin,
        parity=None if q.parity is None else int(q.parity),
        mass=q.mass,
        width=q.width,
    )


def ref_state(q, i):
    return State(
        name=q.name,
        latex=q.name if q.latex is None else q.latex,
        spin=q.spin,
        parity=None if q.parity is None else int(q.parity),
        mass=q.mass,
        width=q.width,
        index=i,
    )


def ref_ls(x):
    if x.l_magnitude is None or x.s_magnitude is None:
        return None
    return LSCoupling(x.l_magnitude, x.s_magnitude)


def ref_convert_one(t):
    states = {}
    for i, s in t.states.items():
        if i in t.intermediate_states:
            states[i] = ref_particle(s.particle)
        else:
            states[i] = ref_state(s.particle, i)
    return FrozenTransition(t.topology, states, {i: ref_ls(n) for i, n in t.interactions.items()})


def convert(ts):
    return convert_transitions(ts)


def ref_convert(ts):
    return tuple(sorted({ref_convert_one(t) for t in ts}))


def ref_permuted(t):
    import itertools

    ids = equal_ids(t)
    if len(ids) == 0:
        return [t]
    out = {t}
    for i, j in itertools.combinations(ids, 2):
        out.add(attrs.evolve(t, topology=t.topology.swap_edges(i, j)))
    return sorted(out)


def ref_permuted_list(ts):
    out = []
    for t in ts:
        out += ref_permuted(t)
    return out


def ref_permuted_reaction(x):
    return ReactionInfo(transitions=ref_permuted_list(x.transitions), formalism=x.formalism)


# ---- minimal LS couplings
def ref_min_ls(ts, node_ids=None):
    ts = tuple(ts)
    available = {i for t in ts for i in t.interactions}
    if available != {0, 1}:
        raise ValueError
    for t in ts:
        if len(t.intermediate_states) != 1:
            raise ValueError
    if node_ids is None:
        node_ids = {0, 1}
    groups = {}
    for t in ts:
        rid, res = next(iter(t.intermediate_states.items()))
        rest = tuple(t.interactions[i] for i in sorted(t.interactions) if i not in node_ids)
        node = t.topology.edges[rid].ending_node_id
        if node is None:
            raise ValueError
        products = tuple(sorted(t.topology.get_originating_final_state_edge_ids(node)))
        groups.setdefault((res, products, rest), []).append(t)
    out = []
    for g in groups.values():
        first = g[0]
        inter = {}
        for i in first.interactions:
            if any(t.interactions[i] is None for t in g):
                inter[i] = None
            elif i in node_ids:
                inter[i] = min(t.interactions[i] for t in g)
            else:
                inter[i] = first.interactions[i]
        out.append(FrozenTransition(topology=first.topology, states=first.states, interactions=inter))
    return tuple(out)


def ref_wrong_nodes(ts):
    raise ValueError


# ---- three-body decay from transitions
def ref_chain(t):
    if len(t.initial_states) != 1 or len(t.final_states) != 3 or len(t.interactions) != 2:
        raise ValueError
    top = t.topology
    parent = list(t.initial_states.values())[0]
    spectator, _ = sorted(top.get_edge_ids_outgoing_from_node(0))
    first, second = sorted(top.get_edge_ids_outgoing_from_node(1))
    resonance = min(top.get_edge_ids_ingoing_to_node(1))
    production, decay = t.interactions[0], t.interactions[1]
    isobar = IsobarNode(t.states[resonance], t.states[first], t.states[second], decay)
    return ThreeBodyDecayChain(IsobarNode(parent, isobar, t.states[spectator], production))


def ref_three_body(ts, min_ls=False):
    ts = list(ts)
    if len(ts) == 0:
        raise ValueError
    first = ts[0]
    if set(first.initial_states) != {0} or set(first.final_states) != {1, 2, 3}:
        ts = normalize_state_ids(tuple(ts))
    ts = convert_transitions(ts)
    if min_ls is True:
        ts = filter_min_ls(ts)
    elif min_ls is not False:
        nodes = set()
        if min_ls[0]:
            nodes.add(0)
        if min_ls[1]:
            nodes.add(1)
        ts = filter_min_ls(ts, nodes)
    first = ts[0]
    i0, p0 = list(first.initial_states.items())[0]
    outer = [outer_state(p0, i0)] + [outer_state(p, i) for i, p in first.final_states.items()]
    return ThreeBodyDecay(states={s.index: s for s in outer}, chains=tuple(sorted(ref_chain(t) for t in ts)))


def outer_state(p, i):
    if isinstance(p, State):
        return ref_state(p, p.index)
    return ref_state(p, i)


def three_body(ts, min_ls):
    return to_three_body_decay(ts, min_ls)


# ---- transitions from an iterator
def min_ls_of_iterator(ts):
    return filter_min_ls(t for t in ts)


def min_ls_of_list(ts):
    return filter_min_ls(ts)


def converted_iterator(ts):
    return convert_transitions(t for t in ts)


def converted_list(ts):
    return convert_transitions(ts)


def ref_converted_again(ts):
    """Transitions of which the states and couplings have been converted already."""
    out = set()
    for t in ts:
        states = {}
        for i, s in t.states.items():
            if i in t.intermediate_states:
                states[i] = ref_particle(s)
            else:
                states[i] = ref_state(s, s.index if isinstance(s, State) else i)
        out.add(FrozenTransition(t.topology, states, {i: n for i, n in t.interactions.items()}))
    return tuple(sorted(out))


def normalized_iterator(ts):
    return normalize_state_ids(t for t in ts)


def normalized_list(ts):
    return normalize_state_ids(ts)


def permuted_iterator(ts):
    return permute_equal_final_states(t for t in ts)


def permuted_list(ts):
    return permute_equal_final_states(ts)


def decay_of_iterator(ts, min_ls):
    return to_three_body_decay((t for t in ts), min_ls)


def decay_of_list(ts, min_ls):
    return to_three_body_decay(ts, min_ls)
