"""Reference and drivers: decay chains and decays."""
from ampform_dpd.decay import IsobarNode, LSCoupling, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain
from ampform_dpd.decay import get_decay_product_ids, to_particle


def state(name, index, spin=0):
    return State(name=name, latex=name, spin=spin, parity=None, mass=1.0, width=0.0, index=index)


def particle(name, spin=0):
    return Particle(name=name, latex=name, spin=spin, parity=None, mass=1.0, width=0.0)


def node_of(parent, resonance, a, b, spectator, swapped, ls1=None, ls2=None):
    inner = IsobarNode(resonance, a, b, ls2)
    if swapped:
        return IsobarNode(parent, spectator, inner, ls1)
    return IsobarNode(parent, inner, spectator, ls1)


# ---- construction of a chain
def chain_with_ids(i0, i1, i2, i3, swapped):
    return ThreeBodyDecayChain(
        node_of(state("P", i0), particle("R"), state("A", i1), state("B", i2), state("C", i3), swapped)
    ).decay


def ref_chain_with_ids(i0, i1, i2, i3, swapped):
    if len({i0, i1, i2, i3}) != 4:
        raise ValueError
    return node_of(state("P", i0), particle("R"), state("A", i1), state("B", i2), state("C", i3), swapped)


def chain_from(decay):
    ThreeBodyDecayChain(decay)
    return True


def kinds(k):
    """Nodes of which one constituent has the wrong kind."""
    p, a, b, c = state("P", 0), state("A", 1), state("B", 2), state("C", 3)
    r = particle("R")
    inner = IsobarNode(r, a, b)
    if k == 0:
        return IsobarNode(p, inner, c)
    if k == 1:
        return IsobarNode(p, c, inner)
    if k == 2:
        return IsobarNode(particle("P"), inner, c)  # initial state without an index
    if k == 3:
        return IsobarNode(p, a, c)  # no isobar
    if k == 4:
        return IsobarNode(p, inner, IsobarNode(r, a, b))  # no spectator
    if k == 5:
        return IsobarNode(p, inner, particle("C"))
    if k == 6:
        return IsobarNode(p, IsobarNode(r, particle("A"), b), c)
    if k == 7:
        return IsobarNode(p, IsobarNode(r, a, particle("B")), c)
    if k == 8:
        return IsobarNode(p, IsobarNode(r, IsobarNode(r, a, b), b), c)  # four-body decay
    if k == 9:
        return p
    if k == 10:
        return r
    return None


def construct_kind(k):
    return chain_from(kinds(k))


def ref_construct_kind(k):
    if k == 0 or k == 1:
        return True
    raise ValueError


# ---- accessors
def accessors(parent, resonance, a, b, spectator, swapped, ls1, ls2):
    c = ThreeBodyDecayChain(node_of(parent, resonance, a, b, spectator, swapped, ls1, ls2))
    return (
        c.parent,
        c.initial_state,
        c.resonance,
        c.decay_products,
        c.spectator,
        c.incoming_ls,
        c.outgoing_ls,
        c.production_node,
        c.decay_node,
        c.decay_node.children,
    )


def ref_accessors(parent, resonance, a, b, spectator, swapped, ls1, ls2):
    n = node_of(parent, resonance, a, b, spectator, swapped, ls1, ls2)
    if len({parent.index, a.index, b.index, spectator.index}) != 4:
        raise ValueError
    inner = IsobarNode(resonance, a, b, ls2)
    return (parent, parent, resonance, (a, b), spectator, n.interaction, inner.interaction, n, inner, (a, b))


def final_state_order(i, j, k, swapped):
    a, b, c = state("A", i), state("B", j), state("C", k)
    return ThreeBodyDecayChain(node_of(state("P", 0), particle("R"), a, b, c, swapped)).final_state


def ref_final_state_order(i, j, k, swapped):
    a, b, c = state("A", i), state("B", j), state("C", k)
    d = {i: a, j: b, k: c}
    return (d[1], d[2], d[3])


# ---- construction of a decay
def final_set(chain):
    return {chain.spectator, chain.decay_products[0], chain.decay_products[1]}


def decay(states, chains):
    d = ThreeBodyDecay(states, chains)
    return (d.states, d.chains, d.initial_state, d.final_state)


def ref_decay(states, chains):
    chains = tuple(chains)
    outer = {s for s in states.values() if s.index != 0}
    for c in chains:
        if c.parent != states[0] or final_set(c) != outer:
            raise ValueError
    return (states, chains, states[0], {s.index: s for s in states.values() if s.index != 0})


def four_states(s1, s2, s3):
    """A decay with constant indices; the other attributes are arbitrary."""
    p, a, b, c = state("P", 0), state("A", 1, s1), state("B", 2, s2), state("C", 3, s3)
    return {0: p, 1: a, 2: b, 3: c}


def some_chain(k, kind):
    """Decay chain with spectator k, of which one constituent may be another particle."""
    st = four_states(0, 0, 0)
    other = state("X", 1)
    i, j = {1: (2, 3), 2: (3, 1), 3: (1, 2)}[k]
    p, a, b, c = st[0], st[i], st[j], st[k]
    if kind == 1:
        p = state("X", 0)
    if kind == 2:
        a = state("X", i)
    if kind == 3:
        b = state("X", j)
    if kind == 4:
        c = state("X", k)
    if kind == 5:
        p = state("P", 0, 1)
    return ThreeBodyDecayChain(node_of(p, particle("R"), a, b, c, False))


def decay_shape(ks):
    d = ThreeBodyDecay(four_states(0, 0, 0), [some_chain(k, kind) for k, kind in ks])
    return (d.states, d.chains, d.initial_state, d.final_state)


def ref_decay_shape(ks):
    for k, kind in ks:
        if kind != 0:
            raise ValueError
    st = four_states(0, 0, 0)
    return (st, [some_chain(k, 0) for k, kind in ks], st[0], {1: st[1], 2: st[2], 3: st[3]})


# ---- selections
def find_chain(decay, name):
    return decay.find_chain(name)


def ref_find_chain(decay, name):
    for c in decay.chains:
        if name == c.resonance.name:
            return c
    raise KeyError


def subsystem(decay, k):
    d = decay.get_subsystem(k)
    return (d.states, d.chains)


def ref_subsystem(decay, k):
    from warnings import warn

    out = []
    for c in decay.chains:
        if c.spectator.index == k:
            out.append(c)
    if len(out) == 0:
        warn("", category=UserWarning)
    d = ThreeBodyDecay(decay.states, out)
    return (d.states, d.chains)


def ref_product_ids(k):
    if k not in {1, 2, 3}:
        raise ValueError
    return (k % 3 + 1, (k + 1) % 3 + 1)


def ref_to_particle(x):
    return x.parent if isinstance(x, IsobarNode) else x


def decay_of(names_and_ks):
    st = four_states(0, 0, 0)
    chains = []
    for n, k in names_and_ks:
        i, j = {1: (2, 3), 2: (3, 1), 3: (1, 2)}[k]
        chains.append(ThreeBodyDecayChain(node_of(st[0], particle(n), st[i], st[j], st[k], False)))
    return ThreeBodyDecay(st, chains)


def find_in(ncs, name):
    return decay_of(ncs).find_chain(name)


def ref_find_in(ncs, name):
    return ref_find_chain(decay_of(ncs), name)


def subsystem_of(ncs, k):
    return decay_of(ncs).get_subsystem(k)


def ref_subsystem_of(ncs, k):
    from warnings import warn

    sel = [x for x in ncs if x[1] == k]
    if not sel:
        warn("", category=UserWarning)
    return decay_of(sel)


# ---- value classes
def spin_of(cls, s):
    if cls == "particle":
        return Particle(name="a", latex="b", spin=s, parity=None, mass=1.0, width=0.0)
    if cls == "state":
        return State(name="a", latex="b", spin=s, parity=None, mass=1.0, width=0.0, index=1)
    return LSCoupling(1, s)


def make_particle(s, parity):
    return Particle(name="a", latex="b", spin=s, parity=parity, mass=1.0, width=0.0).spin


def make_state(s, parity):
    return State(name="a", latex="b", spin=s, parity=parity, mass=1.0, width=0.0, index=1).spin


def make_ls(s, L):
    c = LSCoupling(L, s)
    return (c.L, c.S)


def valid_spin(s):
    import sympy as sp

    r = sp.Rational(s)
    if r.denominator != 1 and r.denominator != 2:
        raise ValueError
    return r


def ref_spin(s, parity):
    return valid_spin(s)


def ref_ls(s, L):
    return (L, valid_spin(s))


def node_ls(p, a, b, interaction):
    return IsobarNode(p, a, b, interaction).interaction


def node_no_ls(p, a, b):
    return IsobarNode(p, a, b).interaction


def ref_node_ls(p, a, b, interaction):
    if interaction is None:
        return None
    if isinstance(interaction, LSCoupling):
        return interaction
    if isinstance(interaction, tuple):
        return LSCoupling(interaction[0], interaction[1])
    raise TypeError


def ref_none(p, a, b):
    return None


# ---- a decay has its own collection of chains
def chains_of_changed_list(states, c1, c2):
    chains = [c1]
    decay = ThreeBodyDecay(states, chains)
    chains.append(c2)
    return [c for c in decay.chains], [c for c in decay.chains]


def ref_chains_of_changed_list(states, c1, c2):
    return [c1], [c1]


def chains_of_generator(states, c1, c2):
    decay = ThreeBodyDecay(states, (c for c in (c1, c2)))
    return decay, [c for c in decay.chains], [c for c in decay.chains]


def ref_chains_of_generator(states, c1, c2):
    return ThreeBodyDecay(states, (c1, c2)), [c1, c2], [c1, c2]
