"""Reference and drivers: lineshapes and builders of dynamics."""
import sympy as sp
from ampform.dynamics import EnergyDependentWidth
from ampform.dynamics.form_factor import FormFactor
from ampform.dynamics.phasespace import BreakupMomentum, PhaseSpaceFactor

from ampform_dpd import DefinedExpression
from ampform_dpd.decay import IsobarNode, State
from ampform_dpd.dynamics import (
    BreitWigner,
    BreitWignerMinL,
    BuggBreitWigner,
    ChannelArguments,
    FlattéSWave,
    MultichannelBreitWigner,
    RelativisticBreitWigner,
    SimpleBreitWigner,
)
from ampform_dpd.dynamics.builder import BreitWignerBuilder, formulate_breit_wigner_with_form_factor, get_mandelstam_s


# ---- lineshapes
def simple(s, m, w):
    return SimpleBreitWigner(s, m, w).evaluate()


def ref_simple(s, m, w):
    return 1 / (m**2 - s - sp.I * m * w)


def relativistic(s, m, w, m1, m2, L, R, phsp):
    return RelativisticBreitWigner(s, m, w, m1, m2, L, R, phsp).evaluate()


def ref_relativistic(s, m, w, m1, m2, L, R, phsp):
    width = EnergyDependentWidth(s, m, w, m1, m2, L, R, phsp)
    return m * w / (m**2 - s - sp.I * m * width)


def relativistic_default(s, m, w, m1, m2, L, R):
    return RelativisticBreitWigner(s, m, w, m1, m2, L, R).evaluate()


def ref_relativistic_default(s, m, w, m1, m2, L, R):
    return ref_relativistic(s, m, w, m1, m2, L, R, PhaseSpaceFactor)


def min_l(s, m_top, m_spec, m0, w0, m1, m2, l_dec, l_prod, R_dec, R_prod, phsp):
    return BreitWignerMinL(
        s=s,
        decaying_mass=m_top,
        spectator_mass=m_spec,
        resonance_mass=m0,
        resonance_width=w0,
        child2_mass=m1,
        child1_mass=m2,
        l_dec=l_dec,
        l_prod=l_prod,
        R_dec=R_dec,
        R_prod=R_prod,
        phsp_factor=phsp,
    ).evaluate()


def ref_min_l(s, m_top, m_spec, m0, w0, m1, m2, l_dec, l_prod, R_dec, R_prod, phsp):
    production = FormFactor(m_top**2, sp.sqrt(s), m_spec, l_prod, R_prod) / FormFactor(m_top**2, m0, m_spec, l_prod, R_prod)
    decay = FormFactor(s, m1, m2, l_dec, R_dec) / FormFactor(m0**2, m1, m2, l_dec, R_dec)
    width = EnergyDependentWidth(s, m0, w0, m1, m2, l_dec, R_dec, phsp)
    return production * decay / (m0**2 - s - sp.I * m0 * width)


def bugg(s, m0, w0, m1, m2, gamma):
    return BuggBreitWigner(s, m0, w0, m1, m2, gamma).evaluate()


def ref_bugg(s, m0, w0, m1, m2, gamma):
    adler = m1**2 - m2**2 / 2
    g2 = (s - adler) / (m0**2 - adler) * m0 * w0 * sp.exp(-gamma * s)
    return 1 / (m0**2 - s - sp.I * g2)


def flatte(s, m0, w1, w2, ma1, mb1, ma2, mb2):
    return FlattéSWave(s, m0, (w1, w2), (ma1, mb1), (ma2, mb2)).evaluate()


def ref_flatte(s, m0, w1, w2, ma1, mb1, ma2, mb2):
    q0 = BreakupMomentum(m0**2, ma2, mb2)
    width = (w1 * BreakupMomentum(s, ma1, mb1) + w2 * BreakupMomentum(s, ma2, mb2)) / q0 * m0 / sp.sqrt(s)
    return 1 / (m0**2 - s - sp.I * m0 * width)


def channel(s, m0, w, m1, m2, L, R):
    return ChannelArguments(s, m0, w, m1, m2, L, R).evaluate()


def ref_channel(s, m0, w, m1, m2, L, R):
    return w * m0 / sp.sqrt(s) * FormFactor(s, m1, m2, L, R) ** 2


def channel_default(s, m0, w):
    return ChannelArguments(s, m0, w).evaluate()


def ref_channel_default(s, m0, w):
    return ref_channel(s, m0, w, 0, 0, 0, 1)


def multichannel(s, m, channels):
    cs = tuple(ChannelArguments(s, m, *c) for c in channels)
    return MultichannelBreitWigner(s, m, cs).evaluate()


def ref_multichannel(s, m, channels):
    return BreitWigner(s, m, sum(ref_channel(s, m, *c) for c in channels))


def breit_wigner(s, m, w, m1, m2, L, R, phsp):
    return BreitWigner(s, m, w, m1, m2, L, R, phsp).evaluate()


def ref_breit_wigner(s, m, w, m1, m2, L, R, phsp):
    if L == 0 and m1 == 0 and m2 == 0:
        return ref_simple(s, m, w)
    return SimpleBreitWigner(s, m, EnergyDependentWidth(s, m, w, m1, m2, L, R, phsp))


def breit_wigner_default(s, m, w):
    return BreitWigner(s, m, w).evaluate()


def ref_breit_wigner_default(s, m, w):
    return ref_simple(s, m, w)


def width_of(s, m, w, m1, m2, L, R, phsp):
    return BreitWigner(s, m, w, m1, m2, L, R, phsp).energy_dependent_width()


def ref_width_of(s, m, w, m1, m2, L, R, phsp):
    if L == 0 and m1 == 0 and m2 == 0:
        return w
    return EnergyDependentWidth(s, m, w, m1, m2, L, R, phsp)


# ---- builder of Breit-Wigners
def built(chain, width, decay, production, phsp):
    return BreitWignerBuilder(width, decay, production, phsp)(chain)


def built_default(chain):
    return BreitWignerBuilder()(chain)


def built_predefined(chain):
    return formulate_breit_wigner_with_form_factor(chain)


def mass_symbol(p):
    if isinstance(p, State):
        return sp.Symbol(f"m{p.index}", nonnegative=True)
    return sp.Symbol("m_{" + p.latex + "}", nonnegative=True)


def ref_built(chain, width, decay, production, phsp):
    return reference(chain, width, decay, production, phsp, lambda s: s)


def variant_built(chain, width, decay, production, phsp):
    """Known finding: the mass squared is squared in the form factor of the decay node."""
    return reference(chain, width, decay, production, phsp, lambda s: s**2)


def ref_built_default(chain):
    return ref_built(chain, True, True, True, PhaseSpaceFactor)


def variant_built_default(chain):
    return variant_built(chain, True, True, True, PhaseSpaceFactor)


def reference(chain, width, decay, production, phsp, argument):
    R = chain.resonance
    a, b = chain.decay_products
    s = sp.Symbol(f"sigma{chain.spectator.index}", nonnegative=True)
    m = mass_symbol(R)
    w = sp.Symbol(r"\Gamma_{" + R.latex + "}", nonnegative=True)
    radius = sp.Symbol(r"R_\mathrm{res}", nonnegative=True)
    defaults = {m: R.mass, w: R.width, radius: 1}
    if width:
        if chain.outgoing_ls is None:
            raise ValueError
        expr = RelativisticBreitWigner(s, m, w, mass_symbol(a), mass_symbol(b), chain.outgoing_ls.L, radius, phsp)
    else:
        expr = SimpleBreitWigner(s, m, w)
    if decay:
        if chain.outgoing_ls is None:
            raise ValueError
        expr = expr * FormFactor(argument(s), mass_symbol(a), mass_symbol(b), chain.outgoing_ls.L, radius)
        defaults.update({mass_symbol(a): a.mass, mass_symbol(b): b.mass})
    if production:
        if chain.incoming_ls is None:
            raise ValueError
        radius0 = sp.Symbol("R_{" + chain.parent.latex + "}", nonnegative=True)
        m0 = sp.Symbol("m0", nonnegative=True)
        first, second = chain.decay.child1, chain.decay.child2
        if isinstance(first, IsobarNode):
            first = first.parent
        if isinstance(second, IsobarNode):
            second = second.parent
        expr = expr * FormFactor(m0**2, mass_symbol(first), mass_symbol(second), chain.incoming_ls.L, radius0)
        defaults.update({radius0: 1, m0: chain.parent.mass, mass_symbol(first): first.mass, mass_symbol(second): second.mass})
    return DefinedExpression(expr, defaults)


def ref_mandelstam(node):
    i, j = node.child1.index, node.child2.index
    return sp.Symbol(f"sigma{6 - i - j}", nonnegative=True)
