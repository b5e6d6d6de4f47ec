"""Reference and drivers: amplitude model builder."""
import warnings

import sympy as sp
from ampform.sympy import PoolSum
from sympy.core.symbol import Str
from sympy.physics.quantum.spin import CG
from sympy.physics.quantum.spin import Rotation as Wigner

from ampform_dpd import (
    AmplitudeModel,
    DalitzPlotDecompositionBuilder,
    DefinedExpression,
    DynamicsConfigurator,
    create_mass_symbol,
    create_mass_symbol_mapping,
    formulate_invariants,
    formulate_third_mandelstam,
)
from ampform_dpd.angles import formulate_scattering_angle, formulate_zeta_angle
from ampform_dpd.decay import IsobarNode, State, ThreeBodyDecay, ThreeBodyDecayChain
from ampform_dpd.spin import create_spin_range


def build(decay, prod, dec, everything=False):
    return DalitzPlotDecompositionBuilder(decay, min_ls=(prod, dec), all_subsystems=everything)


# ---- amplitude of one subsystem
def subsystem(decay, prod, dec, coeff, k, l0, l1, l2, l3, choices=()):
    b = build(decay, prod, dec)
    for identifier, dynamics in choices:
        b.dynamics_choices.register_builder(identifier, dynamics)
    return b.formulate_subsystem_amplitude(l0, l1, l2, l3, k, use_coefficients=coeff)


def pair(k):
    if k == 1:
        return (2, 3)
    if k == 2:
        return (3, 1)
    return (1, 2)


def coupling_names(chain, prod, dec, coeff, lr, lk, li, lj):
    """Coupling symbols of a chain with the given helicities."""
    name = Str(chain.resonance.latex)
    if prod:
        p = (lr, lk)
        pb = R"\mathcal{H}^\mathrm{production}"
    else:
        if chain.incoming_ls is None:
            raise ValueError
        p = (chain.incoming_ls.L, chain.incoming_ls.S)
        pb = R"\mathcal{H}^\mathrm{LS,production}"
    if dec:
        d = (li, lj)
        db = R"\mathcal{H}^\mathrm{decay}"
    else:
        if chain.outgoing_ls is None:
            raise ValueError
        d = (chain.outgoing_ls.L, chain.outgoing_ls.S)
        db = R"\mathcal{H}^\mathrm{LS,decay}"
    if not coeff:
        return [sp.IndexedBase(pb)[name, p[0], p[1]], sp.IndexedBase(db)[name, d[0], d[1]]]
    if prod and dec:
        kind = ""
    elif prod:
        kind = R"LS,\lambda,"
    elif dec:
        kind = R"\lambda,LS,"
    else:
        kind = "LS,"
    base = sp.IndexedBase(Rf"\mathcal{{H}}^\mathrm{{{kind}{name}}}")
    return [base[p[0], p[1], d[0], d[1]]]


def clebsch(J, L, S, j1, m1, j2, m2):
    """Recoupling of the LS basis to the helicity basis."""
    m = m1 - m2
    return (
        sp.sqrt((2 * L + 1) / (2 * J + 1))
        * CG(L, 0, S, m, J, m)
        * CG(j1, m1, j2, -m2, S, m)
    )


def ref_subsystem(decay, prod, dec, coeff, k, l0, l1, l2, l3, choices=()):
    i, j = pair(k)
    hel = {0: l0, 1: l1, 2: l2, 3: l3}
    theta, theta_expr = formulate_scattering_angle(i, j)
    dynamics_choices = build(decay, prod, dec).dynamics_choices
    for identifier, builder in choices:
        dynamics_choices.register_builder(identifier, builder)
    get_builder = dynamics_choices.get_builder
    lr = sp.Symbol(R"\lambda_R", rational=True)
    total = []
    defaults = {}
    for chain in decay.get_subsystem(k).chains:
        dynamics = get_builder(chain)(chain)
        defaults.update(dynamics.parameters)
        values = create_spin_range(chain.resonance.spin)
        for v in values:
            if hel[0] == v - hel[k]:
                names = coupling_names(chain, prod, dec, coeff, v, hel[k], hel[i], hel[j])
                for n, x in zip(names, (1 + 0j, 1)):
                    defaults[n] = x
        term = sp.KroneckerDelta(hel[0], lr - hel[k])
        term *= dynamics.expression
        for n in coupling_names(chain, prod, dec, coeff, lr, hel[k], hel[i], hel[j]):
            term *= n
        term *= Wigner.d(chain.resonance.spin, lr, hel[i] - hel[j], theta)
        term *= (-1) ** (decay.states[k].spin - hel[k]) * (-1) ** (decay.states[j].spin - hel[j])
        if not dec:
            a, b = chain.decay_products
            ls = chain.outgoing_ls
            term *= clebsch(chain.resonance.spin, ls.L, ls.S, a.spin, hel[a.index], b.spin, hel[b.index])
        if not prod:
            c = chain.spectator
            ls = chain.incoming_ls
            if isinstance(chain.decay.child1, IsobarNode):
                term *= clebsch(chain.parent.spin, ls.L, ls.S, chain.resonance.spin, lr, c.spin, hel[k])
            else:
                term *= clebsch(chain.parent.spin, ls.L, ls.S, c.spin, hel[k], chain.resonance.spin, lr)
        total.append(PoolSum(term, (lr, values)))
    base = {1: sp.IndexedBase("A^1"), 2: sp.IndexedBase("A^2"), 3: sp.IndexedBase("A^3")}[k]
    amp = base[l0, l1, l2, l3]
    return AmplitudeModel(
        decay=decay,
        intensity=sp.Abs(amp) ** 2,
        amplitudes={amp: sp.Add(*total)},
        variables={theta: theta_expr},
        parameter_defaults=defaults,
    )


# ---- alignment of the amplitudes
def aligned(decay, ref, l0, l1, l2, l3):
    b = build(decay, True, True)
    return b.formulate_aligned_amplitude(l0, l1, l2, l3, ref)


def aligned_default(decay, l0, l1, l2, l3):
    return build(decay, True, True).formulate_aligned_amplitude(l0, l1, l2, l3)


def subsystems(decay):
    """IDs of the subsystems in which the decay has chains."""
    return [k for k in (1, 2, 3) if any(c.spectator.index == k for c in decay.chains)]


def check_reference(decay, ref):
    if ref not in subsystems(decay):
        warnings.warn("subsystem has no chains", category=UserWarning)


def best_reference(decay):
    best = None
    most = 0
    for k in (1, 2, 3):
        n = len([c for c in decay.chains if c.spectator.index == k])
        if n > most:
            best = k
            most = n
    if best is None:
        raise ValueError
    return best


def rotation(j, m, m_prime, i, k, ref, angles):
    if j == 0:
        return 1
    angle, expr = formulate_zeta_angle(i, k, ref)
    angles[angle] = expr
    return Wigner.d(j, m, m_prime, angle)


def ref_aligned(decay, ref, l0, l1, l2, l3):
    check_reference(decay, ref)
    return align(decay, ref, l0, l1, l2, l3)


def ref_aligned_default(decay, l0, l1, l2, l3):
    return align(decay, best_reference(decay), l0, l1, l2, l3)


def align(decay, ref, l0, l1, l2, l3):
    spins = [decay.initial_state.spin, *[decay.final_state[i].spin for i in (1, 2, 3)]]
    lam = (l0, l1, l2, l3)
    dummies = [sp.Symbol(R"\lambda_" + str(i) + R"^{\prime}", rational=True) for i in range(4)]
    base = {1: sp.IndexedBase("A^1"), 2: sp.IndexedBase("A^2"), 3: sp.IndexedBase("A^3")}
    angles = {}
    terms = []
    for k in subsystems(decay):
        term = base[k][dummies[0], dummies[1], dummies[2], dummies[3]]
        term *= rotation(spins[0], lam[0], dummies[0], 0, k, ref, angles)
        for i in (1, 2, 3):
            term *= rotation(spins[i], dummies[i], lam[i], i, k, ref, angles)
        terms.append(term)
    amp = PoolSum(sp.Add(*terms), *[(d, create_spin_range(j)) for d, j in zip(dummies, spins)])
    return amp, angles


# ---- the complete model
def formulated(decay, prod, dec, everything, reference, cleanup, coeff):
    b = build(decay, prod, dec, everything)
    return b.formulate(reference, cleanup_summations=cleanup, use_coefficients=coeff)


def formulated_with(decay, choices):
    b = DalitzPlotDecompositionBuilder(decay)
    for identifier, dynamics in choices:
        b.dynamics_choices.register_builder(identifier, dynamics)
    return b.formulate()


def ref_formulated_with(decay, choices):
    return ref_formulated(decay, True, True, False, None, False, False, choices)


def formulated_with_masses(decay, chain, x, value):
    masses = {sp.Symbol(f"m{i}", nonnegative=True): value for i in (1, 0)}
    return formulated_with(decay, [(chain, lambda c: DefinedExpression(x, masses))])


def ref_formulated_with_masses(decay, chain, x, value):
    masses = {sp.Symbol(f"m{i}", nonnegative=True): value for i in (1, 0)}
    return ref_formulated_with(decay, [(chain, lambda c: DefinedExpression(x, masses))])


def formulated_default(decay):
    return DalitzPlotDecompositionBuilder(decay).formulate()


def ref_formulated_default(decay):
    return ref_formulated(decay, True, True, False, None, False, False)


def ref_formulated(decay, prod, dec, everything, reference, cleanup, coeff, choices=()):
    if reference is None:
        reference = best_reference(decay)
    else:
        check_reference(decay, reference)
    ranges = [create_spin_range(decay.states[i].spin) for i in (0, 1, 2, 3)]
    amplitudes = {}
    variables = {}
    defaults = {}
    for l0 in ranges[0]:
        for l1 in ranges[1]:
            for l2 in ranges[2]:
                for l3 in ranges[3]:
                    for k in (1, 2, 3) if everything else subsystems(decay):
                        m = ref_subsystem(decay, prod, dec, coeff, k, l0, l1, l2, l3, choices)
                        amplitudes.update(m.amplitudes)
                        variables.update(m.variables)
                        defaults.update(m.parameter_defaults)
    lam = [sp.Symbol(f"lambda{i}", rational=True) for i in range(4)]
    amp, angles = align(decay, reference, *lam)
    variables.update(angles)
    masses = {sp.Symbol(f"m{i}", nonnegative=True): decay.states[i].mass for i in range(4)}
    defaults.update(masses)
    if cleanup:
        amp = amp.cleanup()
    intensity = PoolSum(sp.Abs(amp) ** 2, *zip(lam, ranges))
    if cleanup:
        intensity = intensity.cleanup()
    return AmplitudeModel(
        decay=decay,
        intensity=intensity,
        amplitudes=amplitudes,
        variables=variables,
        parameter_defaults=defaults,
        masses=masses,
        invariants=formulate_invariants(decay),
    )


# ---- choice of dynamics
def registered(decay, ops, chain):
    """Expression for `chain` after a history of registrations."""
    d = DynamicsConfigurator(decay)
    for identifier, builder in ops:
        d.register_builder(identifier, builder)
    return d.get_builder(chain)(chain)


def ref_registered(decay, ops, chain):
    result = None
    for identifier, builder in ops:
        if isinstance(identifier, str):
            if not any(c.resonance.name == identifier for c in decay.chains):
                raise KeyError
            hit = identifier == chain.resonance.name
        elif isinstance(identifier, ThreeBodyDecayChain):
            if not any(c == identifier for c in decay.chains):
                raise ValueError
            hit = identifier == chain
        else:
            raise NotImplementedError
        if hit:
            result = builder
    if not any(c == chain for c in decay.chains):
        raise ValueError
    if result is None:
        return DefinedExpression()
    return result(chain)


def by_name(decay, ops, name, chain):
    d = DynamicsConfigurator(decay)
    for identifier, builder in ops:
        d.register_builder(identifier, builder)
    return d.get_builder(name)(chain)


def ref_by_name(decay, ops, name, chain):
    first = decay.find_chain(name)
    result = None
    for identifier, builder in ops:
        if identifier == name or identifier == first:
            result = builder
    if result is None:
        return DefinedExpression()
    return result(chain)


def configured_decay(decay):
    return DynamicsConfigurator(decay).decay


def builder_state(decay, prod, dec, everything):
    b = build(decay, prod, dec, everything)
    return (b.decay, b.dynamics_choices.decay, b.use_production_helicity_couplings, b.use_decay_helicity_couplings,
            b.all_subsystems)


def ref_builder_state(decay, prod, dec, everything):
    return (decay, decay, prod, dec, everything)


def configured(decay, min_ls):
    b = DalitzPlotDecompositionBuilder(decay, min_ls)
    return (b.decay, b.use_production_helicity_couplings, b.use_decay_helicity_couplings, b.all_subsystems)


def ref_configured(decay, min_ls):
    if isinstance(min_ls, bool):
        return (decay, min_ls, min_ls, False)
    if isinstance(min_ls, tuple) and len(min_ls) == 2:
        return (decay, min_ls[0], min_ls[1], False)
    raise NotImplementedError


def ref_itself(x):
    return x


# ---- kinematics of the model
def ref_mass_mapping(decay):
    return {sp.Symbol(f"m{i}", nonnegative=True): decay.states[i].mass for i in (0, 1, 2, 3)}


def mass_order(decay):
    return list(create_mass_symbol_mapping(decay))


def ref_mass_order(decay):
    return [sp.Symbol(f"m{i}", nonnegative=True) for i in (0, 1, 2, 3)]


def ref_mass_symbol(particle):
    if isinstance(particle, IsobarNode):
        particle = particle.parent
    if isinstance(particle, State):
        return sp.Symbol(f"m{particle.index}", nonnegative=True)
    return sp.Symbol("m_{" + particle.latex + "}", nonnegative=True)


def third(decay, x, y):
    return formulate_third_mandelstam(decay, x, y)


def ref_third(decay, x, y):
    m = [sp.Symbol(f"m{i}", nonnegative=True) for i in range(4)]
    s = [sp.Symbol(f"sigma{i}", nonnegative=True) for i in (x, y)]
    return m[0] ** 2 + m[1] ** 2 + m[2] ** 2 + m[3] ** 2 - s[0] - s[1]


def ref_invariants(decay):
    s = {i: sp.Symbol(f"sigma{i}", nonnegative=True) for i in (1, 2, 3)}
    total = sum(sp.Symbol(f"m{i}", nonnegative=True) ** 2 for i in range(4))
    return {s[k]: total - sum(s[i] for i in (1, 2, 3) if i != k) for k in (1, 2, 3)}


# ---- insertion of the amplitudes in the intensity
def full(decay, intensity, amplitudes):
    return AmplitudeModel(decay=decay, intensity=intensity, amplitudes=amplitudes).full_expression


def ref_full(decay, intensity, amplitudes):
    return intensity.doit().xreplace({symbol: expr.doit() for symbol, expr in amplitudes.items()})


# ---- products of dynamics
def product_of(a, b):
    return DefinedExpression(*a) * b


def ref_product_defined(a, b):
    return DefinedExpression(a[0] * b.expression, {**a[1], **b.parameters})


def ref_product_tuple(a, b):
    return DefinedExpression(a[0] * b[0], {**a[1], **b[1]})


def ref_product_scalar(a, b):
    return DefinedExpression(a[0] * b, {**a[1]})


def mutated_after_product(a, b, key, value):
    """Neither factor changes if the parameters of the product do."""
    left = DefinedExpression(*a)
    result = left * b
    result.parameters[key] = value
    return left.parameters


def ref_left_parameters(a, b, key, value):
    return a[1]


def mutated_after_right(a, b, key, value):
    right = DefinedExpression(*b)
    result = DefinedExpression(*a) * right
    result.parameters[key] = value
    return right.parameters


def ref_right_parameters(a, b, key, value):
    return b[1]


def independent_defaults(key, value):
    x = DefinedExpression()
    y = DefinedExpression()
    x.parameters[key] = value
    return y


def ref_empty(key, value):
    return DefinedExpression()


def independent_models(decay, key, value):
    x = AmplitudeModel(decay)
    y = AmplitudeModel(decay)
    x.parameter_defaults[key] = value
    x.amplitudes[key] = value
    x.variables[key] = value
    x.masses[key] = value
    x.invariants[key] = value
    return y


def ref_independent_models(decay, key, value):
    return AmplitudeModel(decay)
