"""Reference and drivers: tables and LaTeX."""
import jax
import sympy as sp
from ampform.io import aslatex
from frozendict import frozendict
from tensorwaves.function.sympy import create_function, create_parametrized_function

from ampform_dpd import DefinedExpression
from ampform_dpd.io.cached import lambdify
from ampform_dpd.decay import Particle, State, ThreeBodyDecay
from ampform_dpd.dynamics import (
    BreitWigner,
    BreitWignerMinL,
    BuggBreitWigner,
    ChannelArguments,
    FlattéSWave,
    MultichannelBreitWigner,
    RelativisticBreitWigner,
    SimpleBreitWigner,
)
from ampform_dpd.io.serialization.amplitude import HelicityRecoupling, LSRecoupling, ParityRecoupling


def row(cells):
    text = "|"
    for cell in cells:
        text += f" {cell} |"
    return text + "\n"


def header(names):
    return row(names) + row(["---" for n in names])


def jp(particle):
    spin = particle.spin
    if spin.denominator == 1:
        j = sp.latex(spin)
    else:
        j = "\\frac{" + str(spin.numerator) + "}{" + str(spin.denominator) + "}"
    if particle.parity is None:
        return "J=" + j
    if particle.parity < 0:
        return j + "^-"
    return j + "^+"


def mev(value):
    return f"{1000 * value:,.0f}"


def ref_particle_table(items):
    """Table of a non-empty sequence of particles or states."""
    with_index = any(isinstance(i, State) for i in items)
    names = ["name", "LaTeX", "$J^P$", "mass (MeV)", "width (MeV)"]
    if with_index:
        names = ["index", *names]
    text = header(names)
    for p in items:
        cells = [f"`{p.name}`", f"${p.latex}$", f"${jp(p)}$", mev(p.mass), mev(p.width)]
        if with_index:
            if isinstance(p, State):
                cells = [p.index, *cells]
            else:
                cells = [" ", *cells]
        text += row(cells)
    return text


def ref_chain_table(chains):
    with_dec = any(c.outgoing_ls is not None for c in chains)
    with_prod = any(c.incoming_ls is not None for c in chains)
    names = ["resonance", "$J^P$", "mass (MeV)", "width (MeV)"]
    if with_dec:
        names = [*names, R"$L_\mathrm{dec}^\mathrm{min}$"]
    if with_prod:
        names = [*names, R"$L_\mathrm{prod}^\mathrm{min}$"]
    text = header(names)
    for c in chains:
        a, b = c.decay_products
        res = c.resonance
        cells = [f"${res.latex} \\to {a.latex} {b.latex}$", f"${jp(res)}$", mev(res.mass), mev(res.width)]
        if with_dec:
            cells = [*cells, " " if c.outgoing_ls is None else c.outgoing_ls.L]
        if with_prod:
            cells = [*cells, " " if c.incoming_ls is None else c.incoming_ls.L]
        text += row(cells)
    return text


def ref_table(obj):
    if isinstance(obj, ThreeBodyDecay):
        return ref_chain_table(obj.chains)
    return ref_chain_table(obj)


def ref_empty(obj):
    raise ValueError


def ref_not_supported(obj):
    raise NotImplementedError


# ---- LaTeX of the decay
def ref_particle(p):
    return p.latex


def particle_with_jp(p):
    return aslatex(p, with_jp=True)


def ref_particle_with_jp(p):
    return p.latex + "\\left[" + jp(p) + "\\right]"


def particle_only_jp(p):
    return aslatex(p, only_jp=True)


def ref_jp(p):
    return jp(p)


def particle_both(p):
    return aslatex(p, with_jp=True, only_jp=True)


def plain(obj):
    return aslatex(obj)


def with_jp(obj):
    return aslatex(obj, with_jp=True)


def ref_node(node):
    return ref_tree(node, False)


def ref_node_with_jp(node):
    return ref_tree(node, True)


def ref_tree(node, show_jp):
    parts = [leaf(node.parent, show_jp)]
    if node.interaction is None:
        parts += ["\\to"]
    else:
        parts += [f"\\xrightarrow[S={node.interaction.S}]{{L={node.interaction.L}}}"]
    for child in (node.child1, node.child2):
        if isinstance(child, Particle):
            parts += [leaf(child, show_jp)]
        else:
            parts += [ref_tree(child, show_jp)]
    text = " ".join(parts)
    if isinstance(node.parent, State):
        return text
    return "\\left(" + text + "\\right)"


def leaf(p, show_jp):
    return ref_particle_with_jp(p) if show_jp else p.latex


def ref_chain(chain):
    return ref_tree(chain.decay, False)


def ref_chain_with_jp(chain):
    return ref_tree(chain.decay, True)


def ref_decay(decay):
    return aslatex(decay.chains)


def ref_decay_with_jp(decay):
    return aslatex(decay.chains, with_jp=True)


# ---- LaTeX of expressions
def shown(x, names, printer):
    template = x._latex_repr_
    if isinstance(template, str):
        return template.format(**{n: printer._print(getattr(x, n)) for n in names})
    return template(printer)


BW = R"\mathcal{R}^\mathrm{BW}"


def latex_simple(printer, s, m, w):
    return shown(SimpleBreitWigner(s, m, w), ["s", "mass", "width"], printer)


def ref_latex_simple(printer, s, m, w):
    p = printer._print
    return BW + R"\left(" + p(s) + "; " + p(m) + ", " + p(w) + R"\right)"


def latex_breit_wigner(printer, s, m, w, m1, m2, L, R):
    return shown(BreitWigner(s, m, w, m1, m2, L, R), [], printer)


def ref_latex_breit_wigner(printer, s, m, w, m1, m2, L, R):
    p = printer._print
    label = "L=" + p(L) if isinstance(L, sp.Integer) else p(L)
    return BW + "_{" + label + "}" + R"\left(" + p(s) + "; " + p(m) + ", " + p(w) + R"\right)"


def latex_relativistic(printer, s, m, w, m1, m2, L, R):
    return shown(RelativisticBreitWigner(s, m, w, m1, m2, L, R), ["s", "mass0", "gamma0", "m1", "m2", "angular_momentum", "meson_radius"],
                 printer)


def ref_latex_relativistic(printer, s, m, w, m1, m2, L, R):
    p = printer._print
    return R"\mathcal{R}_{" + p(L) + R"}\left(" + p(s) + ", " + p(m) + ", " + p(w) + R"\right)"


MIN_L = ["s", "decaying_mass", "spectator_mass", "resonance_mass", "resonance_width", "child2_mass", "child1_mass", "l_dec",
         "l_prod", "R_dec", "R_prod"]


def latex_min_l(printer, s, l_dec, l_prod, x):
    return shown(BreitWignerMinL(s, x, x, x, x, x, x, l_dec, l_prod, x, x), MIN_L, printer)


def ref_latex_min_l(printer, s, l_dec, l_prod, x):
    p = printer._print
    return BW + "_{" + p(l_dec) + "," + p(l_prod) + R"}\left(" + p(s) + R"\right)"


def latex_bugg(printer, s, x):
    return shown(BuggBreitWigner(s, x, x, x, x, x), ["s", "m0", "Γ0", "m1", "m2", "γ"], printer)


def ref_latex_bugg(printer, s, x):
    return R"\mathcal{R}^\mathrm{Bugg}\left(" + printer._print(s) + R"\right)"


def latex_flatte(printer, s, x):
    return shown(FlattéSWave(s, x, (x, x), (x, x), (x, x)), ["s", "m0", "widths", "masses1", "masses2"], printer)


def ref_latex_flatte(printer, s, x):
    return R"\mathcal{R}^\mathrm{Flatté}\left(" + printer._print(s) + R"\right)"


def latex_channel(printer, s, m, w, m1, m2, L, R):
    return shown(ChannelArguments(s, m, w, m1, m2, L, R), ["s", "m0", "width", "m1", "m2", "angular_momentum", "meson_radius"], printer)


def ref_latex_channel(printer, s, m, w, m1, m2, L, R):
    p = printer._print
    return R"\Gamma^\text{channel}\left(" + p(s) + ", " + p(m) + ", " + p(w) + R"\right)"


def latex_multichannel(printer, s, m, widths):
    return shown(MultichannelBreitWigner(s, m, tuple([ChannelArguments(s, m, w) for w in widths])), [], printer)


def ref_latex_multichannel(printer, s, m, widths):
    p = printer._print
    args = ", ".join([p(w) for w in widths])
    return BW + R"_\mathrm{multi}\left(" + p(s) + "; " + args + R"\right)"


def latex_helicity(printer, a, b, a0, b0):
    return shown(HelicityRecoupling(a, b, a0, b0), ["λa", "λb", "λa0", "λb0"], printer)


def ref_latex_helicity(printer, a, b, a0, b0):
    p = printer._print
    return R"\mathcal{H}^\text{helicity}\left(" + p(a) + "," + p(b) + "|" + p(a0) + "," + p(b0) + R"\right)"


def latex_parity(printer, a, b, a0, b0, f):
    return shown(ParityRecoupling(a, b, a0, b0, f), ["λa", "λb", "λa0", "λb0", "f"], printer)


def ref_latex_parity(printer, a, b, a0, b0, f):
    p = printer._print
    return R"\mathcal{H}^\text{parity}\left(" + p(a) + "," + p(b) + "|" + p(a0) + "," + p(b0) + "," + p(f) + R"\right)"


def latex_ls(printer, a, b, l, s, ja, jb, j):
    return shown(LSRecoupling(a, b, l, s, ja, jb, j), ["λa", "λb", "l", "s", "ja", "jb", "j"], printer)


def ref_latex_ls(printer, a, b, l, s, ja, jb, j):
    p = printer._print
    args = ",".join([p(x) for x in (l, s, ja, jb, j)])
    return R"\mathcal{H}^\text{LS}\left(" + p(a) + "," + p(b) + "|" + args + R"\right)"


def latex_defined(expression, parameters):
    return aslatex(DefinedExpression(expression, parameters))


def ref_latex_defined(expression, parameters):
    unfolded = expression.doit(deep=False)
    text = R"\begin{array}{rcl}" + "\n"
    if expression == unfolded:
        text += "  " + aslatex(expression) + R" \\" + "\n"
    else:
        text += "  " + aslatex(expression) + " &=& " + aslatex(unfolded) + R" \\" + "\n"
    for name, value in parameters.items():
        text += "  " + aslatex(name) + " &=& " + aslatex(value) + R" \\" + "\n"
    return text + R"\end{array}"


def ref_any_table(items):
    if len(items) == 0:
        raise ValueError
    return ref_particle_table(items)


# ---- numerical functions
def ref_lambdify(expr, parameters=None, *, backend="jax"):
    if backend == "jax":
        jax.config.update("jax_enable_x64", True)
    if parameters is None:
        return create_function(expr, backend)
    return create_parametrized_function(expr, frozendict(parameters), backend)


def ref_lambdify_short(expr, backend):
    return ref_lambdify(expr, None, backend=backend)


def lambdify_after_update(expr, parameters, new, backend):
    first = lambdify(expr, parameters, backend=backend)
    first.update_parameters(new)
    return lambdify(expr, parameters, backend=backend)


def ref_lambdify_after_update(expr, parameters, new, backend):
    return ref_lambdify(expr, parameters, backend=backend)
