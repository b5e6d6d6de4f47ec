"""Reference and drivers: amplitude models from serialized definitions."""
import warnings

import sympy as sp
from ampform.dynamics.form_factor import FormFactor
from ampform.sympy import PoolSum
from sympy.functions.special.tensor_functions import KroneckerDelta
from sympy.physics.quantum.cg import CG
from sympy.physics.quantum.spin import Rotation as Wigner

from ampform_dpd import AmplitudeModel, DefinedExpression, formulate_invariants
from ampform_dpd.angles import formulate_scattering_angle, formulate_zeta_angle
from ampform_dpd.decay import IsobarNode, Particle, State, ThreeBodyDecay, ThreeBodyDecayChain
from ampform_dpd.dynamics import BreitWigner, ChannelArguments, MultichannelBreitWigner
from ampform_dpd.io.serialization.amplitude import (
    HelicityRecoupling,
    LSRecoupling,
    ParityRecoupling,
    formulate,
    formulate_aligned_amplitude,
    formulate_chain_amplitude,
    formulate_recoupling,
    get_existing_subsystem_ids,
)
from ampform_dpd.io.serialization.decay import (
    get_final_state,
    get_initial_state,
    get_spectator_id,
    get_states,
    to_decay,
    to_decay_chain,
)
from ampform_dpd.io.serialization.dynamics import (
    formulate_breit_wigner,
    formulate_dynamics,
    formulate_form_factor,
    formulate_multichannel_breit_wigner,
    to_mandelstam_symbol,
    to_mass_symbol,
)
from ampform_dpd.io.serialization.format import (
    get_decay_chains,
    get_distribution_def,
    get_function_definition,
    get_reference_topology,
)
from ampform_dpd.spin import create_spin_range

from specs.model import rotation


def same_text(x):
    return x


# ---- access to the definitions
def ref_distribution(model):
    found = model["distributions"]
    if len(found) == 0:
        raise ValueError
    if len(found) > 1:
        warnings.warn("more than one", category=UserWarning)
    return found[0]


def ref_chains(model):
    return ref_distribution(model)["decay_description"]["chains"]


def ref_reference(model):
    return ref_distribution(model)["decay_description"]["reference_topology"]


def ref_function(name, model):
    for f in model["functions"]:
        if f["name"] == name:
            return f
    raise KeyError


# ---- decay
def ref_state(definition, to_latex):
    return State(
        name=definition["name"],
        latex=to_latex(definition["name"]),
        spin=sp.Rational(definition["spin"]),
        mass=definition["mass"],
        width=0,
        index=definition["index"],
        parity=None,
    )


def ref_initial_state(model, to_latex=same_text):
    return ref_state(ref_distribution(model)["decay_description"]["kinematics"]["initial_state"], to_latex)


def ref_final_state(model, to_latex=same_text):
    result = {}
    for definition in ref_distribution(model)["decay_description"]["kinematics"]["final_state"]:
        result[definition["index"]] = ref_state(definition, to_latex)
    return result


def ref_states(model, to_latex=same_text):
    result = {0: ref_initial_state(model, to_latex)}
    result.update(ref_final_state(model, to_latex))
    return result


def inner_nodes(vertices):
    return [v["node"] for v in vertices if isinstance(v["node"][0], int) and isinstance(v["node"][1], int)]


def ref_to_decay_chain(chain, initial_state, final_state, to_latex=same_text):
    vertices = chain["vertices"]
    outer = [v["node"] for v in vertices if not (isinstance(v["node"][0], int) and isinstance(v["node"][1], int))]
    inner = inner_nodes(vertices)
    if len(inner) == 0:
        raise ValueError
    spectators = [x for node in outer for x in node if isinstance(x, int)]
    if len(spectators) == 0:
        raise ValueError
    resonance = Particle(
        name=chain["name"],
        latex=to_latex(chain["name"]),
        spin=sp.Rational(chain["propagators"][0]["spin"]),
        mass=0,
        width=0,
        parity=None,
    )
    return ThreeBodyDecayChain(
        IsobarNode(
            parent=initial_state,
            child1=IsobarNode(resonance, final_state[inner[0][0]], final_state[inner[0][1]]),
            child2=final_state[spectators[0]],
        )
    )


def ref_to_decay(model, to_latex=same_text):
    initial = ref_initial_state(model, to_latex)
    final = ref_final_state(model, to_latex)
    return ThreeBodyDecay(
        states=ref_states(model, to_latex),
        chains=sorted({ref_to_decay_chain(c, initial, final, to_latex) for c in ref_chains(model)}),
    )


def ref_spectator(topology):
    found = {x for x in topology if isinstance(x, int)}
    if len(found) != 1:
        raise ValueError
    return min(found)


def ref_subsystems(model):
    found = {ref_spectator(c["topology"]) for c in ref_chains(model)}
    return [k for k in (1, 2, 3) if k in found]


# ---- vertices
def helicity_symbol(x):
    if isinstance(x, int):
        return sp.Symbol(f"lambda{x}", rational=True)
    return sp.Symbol(R"\lambda_R", rational=True)


def ref_recoupling(model, chain_idx, vertex_idx):
    chain = ref_chains(model)[chain_idx]
    vertices = chain["vertices"]
    if len(vertices) != 2:
        raise ValueError
    if vertex_idx != 0 and vertex_idx != 1:
        raise ValueError
    vertex = vertices[vertex_idx]
    a = helicity_symbol(vertex["node"][0])
    b = helicity_symbol(vertex["node"][1])
    kind = vertex["type"]
    if kind == "helicity":
        return HelicityRecoupling(a, b, sp.Rational(vertex["helicities"][0]), sp.Rational(vertex["helicities"][1]))
    if kind == "parity":
        sign = vertex.get("parity_factor", "+").strip()
        if sign == "+":
            factor = 1
        elif sign == "-":
            factor = -1
        elif sign == "":
            factor = 0
        else:
            raise NotImplementedError
        return ParityRecoupling(a, b, sp.Rational(vertex["helicities"][0]), sp.Rational(vertex["helicities"][1]), factor)
    if kind == "ls":
        propagators = chain["propagators"]
        if len(propagators) != 1:
            raise ValueError
        spin_R = sp.Rational(propagators[0]["spin"])
        finals = ref_final_state(model)
        spins = [finals[x].spin if isinstance(x, int) else spin_R for x in vertex["node"]]
        decay_vertex = isinstance(vertex["node"][0], int) and isinstance(vertex["node"][1], int)
        spin = spin_R if decay_vertex else ref_initial_state(model).spin
        return LSRecoupling(a, b, int(vertex["l"]), sp.Rational(vertex["s"]), spins[0], spins[1], spin)
    raise NotImplementedError


def helicity_recoupling(a, b, a0, b0):
    return HelicityRecoupling(a, b, a0, b0).evaluate()


def ref_helicity_recoupling(a, b, a0, b0):
    return KroneckerDelta(a, a0) * KroneckerDelta(b, b0)


def parity_recoupling(a, b, a0, b0, f):
    return ParityRecoupling(a, b, a0, b0, f).evaluate()


def ref_parity_recoupling(a, b, a0, b0, f):
    same = KroneckerDelta(a, a0) * KroneckerDelta(b, b0)
    flipped = KroneckerDelta(a, -a0) * KroneckerDelta(b, -b0)
    return same + f * flipped


def ls_recoupling(a, b, l, s, ja, jb, j):
    return LSRecoupling(a, b, l, s, ja, jb, j).evaluate()


def ref_ls_recoupling(a, b, l, s, ja, jb, j):
    norm = sp.sqrt((2 * l + 1) / (2 * j + 1))
    return norm * CG(ja, a, jb, -b, s, a - b) * CG(l, 0, s, a - b, j, a - b)


# ---- amplitude of a chain
def is_inner(vertex):
    return isinstance(vertex["node"][0], int) and isinstance(vertex["node"][1], int)


def production_vertices(chain):
    return [v for v in chain["vertices"] if not is_inner(v)]


def decay_vertices(chain):
    return [v for v in chain["vertices"] if is_inner(v)]


def helicities_of(vertex):
    helicities = vertex.get("helicities")
    if helicities is None:
        raise ValueError
    return [sp.Rational(helicities[0]), sp.Rational(helicities[1])]


def ref_weight(chain, to_latex):
    value = complex(str(chain["weight"]).replace(" ", "").replace("i", "j"))
    outer_vertices = production_vertices(chain)
    inner_vertices = decay_vertices(chain)
    if len(outer_vertices) == 0 or len(inner_vertices) == 0:
        raise ValueError
    production = outer_vertices[0]
    decay = inner_vertices[0]
    outer = helicities_of(production)
    inner = helicities_of(decay)
    if isinstance(production["node"][0], int):
        resonance = outer[1]
        found = {production["node"][0]: outer[0]}
    else:
        resonance = outer[0]
        found = {production["node"][1]: outer[1]}
    found[decay["node"][0]] = inner[0]
    found[decay["node"][1]] = inner[1]
    subscript = ", ".join([sp.latex(found[i]) for i in (1, 2, 3) if i in found])
    name = to_latex(chain["name"])
    symbol = sp.Symbol(f"c^{{{name}[{resonance}]}}_{{{subscript}}}")
    if value.imag == 0:
        return symbol, value.real, resonance, inner
    return symbol, value, resonance, inner


def ref_chain_amplitude(l0, l1, l2, l3, model, chain_idx, to_latex=same_text, builders=None):
    chain = ref_chains(model)[chain_idx]
    dynamics = formulate_dynamics(chain, model, to_latex, builders)
    factors = [formulate_form_factor(v, model) for v in chain["vertices"]]
    symbol, value, resonance, inner = ref_weight(chain, to_latex)
    decay = decay_vertices(chain)[0]
    i, j = decay["node"]
    k = ref_spectator(chain["topology"])
    angle, angle_definition = formulate_scattering_angle(i, j)
    expression = dynamics.expression
    parameters = dict(dynamics.parameters)
    for x in factors:
        expression = expression * x.expression
        parameters.update(x.parameters)
    l_R = sp.Symbol(R"\lambda_R", rational=True)
    l_k = [l0, l1, l2, l3][k]
    spin = sp.Rational(chain["propagators"][0]["spin"])
    amplitude = (
        symbol
        * KroneckerDelta(l0, l_R - l_k)
        * ref_recoupling(model, chain_idx, 0)
        * ref_recoupling(model, chain_idx, 1)
        * Wigner.d(spin, l_R, inner[0] - inner[1], angle)
        * expression
    ).subs({l_R: resonance})
    base = {1: sp.IndexedBase("A^1"), 2: sp.IndexedBase("A^2"), 3: sp.IndexedBase("A^3")}[k]
    return {base[l0, l1, l2, l3]: amplitude, symbol: value, **parameters, angle: angle_definition}


# ---- dynamics
def ref_mass_symbol(node):
    if isinstance(node, int):
        return sp.Symbol(f"m{node}", nonnegative=True)
    if len(node) != 2:
        raise NotImplementedError
    if not isinstance(node[0], int) or not isinstance(node[1], int):
        raise NotImplementedError
    rest = [k for k in (1, 2, 3) if k != node[0] and k != node[1]]
    return sp.Symbol(f"sigma{rest[0]}", nonnegative=True)


def ref_mandelstam_symbol(node):
    if isinstance(node[0], int) and isinstance(node[1], int):
        return ref_mass_symbol(node)
    return sp.Symbol("m0", nonnegative=True)


def ref_breit_wigner(propagator, resonance, model):
    definition = ref_function(propagator["parametrization"], model)
    i, j = propagator["node"]
    s = ref_mass_symbol([i, j])
    m_i = ref_mass_symbol(i)
    m_j = ref_mass_symbol(j)
    mass = sp.Symbol(f"m_{{{resonance}}}", nonnegative=True)
    width = sp.Symbol(Rf"\Gamma_{{{resonance}}}", nonnegative=True)
    radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
    return DefinedExpression(
        expression=BreitWigner(s, mass, width, m_i, m_j, int(definition["l"]), radius),
        parameters={
            mass: definition["mass"],
            width: definition["width"],
            m_i: definition["ma"],
            m_j: definition["mb"],
            radius: definition["d"],
        },
    )


def ref_multichannel(propagator, resonance, model):
    definition = ref_function(propagator["parametrization"], model)
    if len(definition["channels"]) < 2:
        raise NotImplementedError
    i, j = propagator["node"]
    s = ref_mass_symbol([i, j])
    mass = sp.Symbol(f"m_{{{resonance}}}", nonnegative=True)
    channels = []
    parameters = {mass: definition["mass"]}
    for n, channel in enumerate(definition["channels"]):
        if n == 0:
            suffix = ""
            m_a = ref_mass_symbol(i)
            m_b = ref_mass_symbol(j)
        else:
            suffix = Rf"^\text{{ch. {n + 1}}}"
            m_a = sp.Symbol(f"m_{{a,{n + 1}}}^{{{resonance}}}", nonnegative=True)
            m_b = sp.Symbol(f"m_{{b,{n + 1}}}^{{{resonance}}}", nonnegative=True)
        width = sp.Symbol(Rf"\Gamma_{{{resonance}}}" + suffix, nonnegative=True)
        radius = sp.Symbol(f"R_{{{resonance}}}" + suffix, nonnegative=True)
        channels.append(ChannelArguments(s, mass, width, m_a, m_b, int(channel["l"]), radius))
        parameters[width] = channel["gsq"]
        parameters[m_a] = channel["ma"]
        parameters[m_b] = channel["mb"]
        parameters[radius] = channel["d"]
    return DefinedExpression(expression=MultichannelBreitWigner(s, mass, tuple(channels)), parameters=parameters)


def ref_form_factor(vertex, model):
    name = vertex.get("formfactor")
    if not name:
        return DefinedExpression(1, {})
    definition = ref_function(name, model)
    if definition["type"] != "BlattWeisskopf":
        raise NotImplementedError
    a, b = vertex["node"]
    m_a = ref_mass_symbol(a)
    m_b = ref_mass_symbol(b)
    if isinstance(a, int) and isinstance(b, int):
        s = ref_mass_symbol([a, b])
        radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
    else:
        s = sp.Symbol("m0", nonnegative=True) ** 2
        if not isinstance(a, int):
            m_a = sp.sqrt(m_a)
        if not isinstance(b, int):
            m_b = sp.sqrt(m_b)
        radius = sp.Symbol(f"R_{{{ref_initial_state(model).latex}}}", nonnegative=True)
    return DefinedExpression(
        expression=FormFactor(s, m_a, m_b, int(definition["l"]), radius),
        parameters={radius: definition["radius"]},
    )


def ref_dynamics(chain, model, to_latex=same_text, additional_definitions=None):
    expression = 1
    parameters = {}
    for propagator in chain["propagators"]:
        kind = ref_function(propagator["parametrization"], model)["type"]
        resonance = to_latex(chain["name"])
        if additional_definitions is not None and kind in additional_definitions:
            x = additional_definitions[kind](propagator, resonance=resonance, model=model)
        elif kind == "BreitWigner":
            x = ref_breit_wigner(propagator, resonance, model)
        elif kind == "MultichannelBreitWigner":
            x = ref_multichannel(propagator, resonance, model)
        else:
            raise NotImplementedError
        expression = expression * x.expression
        parameters.update(x.parameters)
    return DefinedExpression(expression, parameters)



def dynamics_of(*args):
    x = formulate_dynamics(*args)
    return x.expression, x.parameters


def ref_dynamics_of(*args):
    x = ref_dynamics(*args)
    return x.expression, x.parameters


def breit_wigner_of(*args):
    x = formulate_breit_wigner(*args)
    return x.expression, x.parameters


def ref_breit_wigner_of(*args):
    x = ref_breit_wigner(*args)
    return x.expression, x.parameters


def multichannel_of(*args):
    x = formulate_multichannel_breit_wigner(*args)
    return x.expression, x.parameters


def ref_multichannel_of(*args):
    x = ref_multichannel(*args)
    return x.expression, x.parameters


def form_factor_of(*args):
    x = formulate_form_factor(*args)
    return x.expression, x.parameters


def ref_form_factor_of(*args):
    x = ref_form_factor(*args)
    return x.expression, x.parameters


# ---- parameters that two chains share although their definitions differ
def conflicts(l0, l1, l2, l3, model):
    first = formulate_chain_amplitude(l0, l1, l2, l3, model, 0)
    second = formulate_chain_amplitude(l0, l1, l2, l3, model, 1)
    base = sp.IndexedBase("A^3")[l0, l1, l2, l3]
    return [k for k in first if k != base and k in second and first[k] != second[k]]


def ref_conflicts(l0, l1, l2, l3, model):
    return []


def variant_conflicts(l0, l1, l2, l3, model):
    first = ref_chain_amplitude(l0, l1, l2, l3, model, 0)
    second = ref_chain_amplitude(l0, l1, l2, l3, model, 1)
    names = [R"R_\mathrm{res}", f"R_{{{ref_initial_state(model).latex}}}"]
    radii = [sp.Symbol(n, nonnegative=True) for n in names]
    return [k for k in first if k in radii and k in second and first[k] != second[k]]


# ---- the complete model
def ref_aligned_of(model, l0, l1, l2, l3):
    reference = ref_spectator(ref_reference(model))
    states = ref_states(model)
    spins = [states[i].spin for i in (0, 1, 2, 3)]
    lam = (l0, l1, l2, l3)
    dummies = [sp.Symbol(R"\lambda_" + str(i) + R"^{\prime}", rational=True) for i in range(4)]
    base = {1: sp.IndexedBase("A^1"), 2: sp.IndexedBase("A^2"), 3: sp.IndexedBase("A^3")}
    angles = {}
    terms = []
    for k in ref_subsystems(model):
        term = base[k][dummies[0], dummies[1], dummies[2], dummies[3]]
        term *= rotation(spins[0], lam[0], dummies[0], 0, k, reference, angles)
        for i in (1, 2, 3):
            term *= rotation(spins[i], dummies[i], lam[i], i, k, reference, angles)
        terms.append(term)
    amp = PoolSum(sp.Add(*terms), *[(d, create_spin_range(j)) for d, j in zip(dummies, spins)])
    return amp, angles


def ref_formulate(model, cleanup=False, to_latex=same_text, builders=None):
    states = ref_states(model)
    lam = [sp.Symbol(f"lambda{i}", rational=True) for i in range(4)]
    ranges = [create_spin_range(states[i].spin) for i in (0, 1, 2, 3)]
    amplitudes = {}
    variables = {}
    defaults = {}
    base = {1: sp.IndexedBase("A^1"), 2: sp.IndexedBase("A^2"), 3: sp.IndexedBase("A^3")}
    chains = ref_chains(model)
    for l0 in ranges[0]:
        for l1 in ranges[1]:
            for l2 in ranges[2]:
                for l3 in ranges[3]:
                    values = {lam[0]: l0, lam[1]: l1, lam[2]: l2, lam[3]: l3}
                    for n in range(len(chains)):
                        k = ref_spectator(chains[n]["topology"])
                        symbol = base[k][l0, l1, l2, l3]
                        entries = formulate_chain_amplitude(l0, l1, l2, l3, model, n, to_latex, builders)
                        amplitudes[symbol] = amplitudes.get(symbol, 0) + entries[symbol].subs(values)
                        i, j = decay_vertices(chains[n])[0]["node"]
                        angle = formulate_scattering_angle(i, j)
                        for key, value in entries.items():
                            if key != symbol and key != angle[0]:
                                defaults[key] = value
                        variables[angle[0]] = angle[1]
    amp, angles = ref_aligned_of(model, *lam)
    variables.update(angles)
    masses = {sp.Symbol(f"m{i}", nonnegative=True): states[i].mass for i in range(4)}
    defaults.update(masses)
    if cleanup:
        amp = amp.cleanup()
    intensity = PoolSum(sp.Abs(amp) ** 2, *zip(lam, ranges))
    if cleanup:
        intensity = intensity.cleanup()
    decay = to_decay(model)
    return AmplitudeModel(
        decay=decay,
        intensity=intensity,
        amplitudes=amplitudes,
        variables=variables,
        parameter_defaults=defaults,
        masses=masses,
        invariants=formulate_invariants(decay),
    )
