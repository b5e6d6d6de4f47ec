"""Facts about external libraries that the analysis relies on (its trusted base)."""

from __future__ import annotations

S = ("str",)
I = ("int",)
N = ("num",)
EXPR = ("ext", "sympy.Expr", ())
TOPO = ("ext", "qrules.Topology", ())
QSTATE = ("ext", "qrules.State", ())
QPART = ("ext", "qrules.Particle", ())
QINT = ("ext", "qrules.InteractionProperties", ())
FROZEN = ("ext", "qrules.FrozenTransition", ())
MUTABLE = ("ext", "qrules.MutableTransition", ())
EDGE = ("ext", "qrules.Edge", ())


def opt(t):
    return ("union", [t, ("none",)])


def _edge_type(typ):
    return typ[2][0] if len(typ) > 2 and typ[2] and typ[2][0] != ("any",) else None


def _node_type(typ):
    return typ[2][1] if len(typ) > 2 and len(typ[2]) > 1 and typ[2][1] != ("any",) else None


def _trans(typ, what):
    e = _edge_type(typ) or QSTATE
    n = _node_type(typ) or QINT
    return {
        "topology": TOPO,
        "states": ("dict", I, e),
        "interactions": ("dict", I, n),
        "initial_states": ("dict", I, e),
        "final_states": ("dict", I, e),
        "intermediate_states": ("dict", I, e),
    }.get(what)


FIELDS = {
    "qrules.State": {"particle": QPART, "spin_projection": N},
    "qrules.Particle": {"name": S, "latex": opt(S), "spin": N, "parity": opt(("ext", "qrules.Parity", ())), "mass": N,
                        "width": N, "pid": I},
    "qrules.InteractionProperties": {"l_magnitude": opt(I), "s_magnitude": opt(N), "l_projection": opt(I),
                                     "s_projection": opt(N), "parity_prefactor": opt(N)},
    "qrules.ReactionInfo": {"transitions": ("list", FROZEN), "formalism": S},
    "qrules.Topology": {"edges": ("dict", I, EDGE), "nodes": ("set", I), "incoming_edge_ids": ("set", I),
                        "outgoing_edge_ids": ("set", I), "intermediate_edge_ids": ("set", I)},
    "qrules.ProblemSet": {"topology": TOPO, "initial_facts": MUTABLE,
                          "solving_settings": MUTABLE},
    "sympy.Rational": {"numerator": I, "denominator": I, "p": I, "q": I},
    "sympy.Symbol": {"name": S},
    "complex": {"real": N, "imag": N},
    "sympy.IndexedBase": {},
}

METHOD_TYPES = {
    ("qrules.Topology", "get_edge_ids_outgoing_from_node"): ("set", I),
    ("qrules.Topology", "get_edge_ids_ingoing_to_node"): ("set", I),
    ("qrules.Topology", "get_originating_initial_edge_ids"): ("set", I),
    ("qrules.Topology", "get_originating_final_state_edge_ids"): ("set", I),
    ("qrules.Topology", "swap_edges"): TOPO,
    ("qrules.Topology", "relabel_edges"): TOPO,
}

# external classes: supertypes (short names of abstract base classes included)
SUPERS = {
    "sympy.Rational": {"sympy.Rational", "sympy.Number", "sympy.Expr", "sympy.Basic"},
    "sympy.Integer": {"sympy.Integer", "sympy.Rational", "sympy.Number", "sympy.Expr", "sympy.Basic"},
    "sympy.Symbol": {"sympy.Symbol", "sympy.Expr", "sympy.Basic"},
    "sympy.Expr": {"sympy.Expr", "sympy.Basic"},
    "sympy.Indexed": {"sympy.Indexed", "sympy.Expr", "sympy.Basic"},
    "sympy.IndexedBase": {"sympy.IndexedBase", "sympy.Expr", "sympy.Basic"},
    "qrules.FrozenTransition": {"qrules.FrozenTransition", "qrules.Transition"},
    "qrules.MutableTransition": {"qrules.MutableTransition", "qrules.Transition"},
    "qrules.State": {"qrules.State"},
    "qrules.Particle": {"qrules.Particle"},
    "qrules.InteractionProperties": {"qrules.InteractionProperties"},
    "qrules.ReactionInfo": {"qrules.ReactionInfo"},
    "qrules.Topology": {"qrules.Topology"},
    "qrules.ProblemSet": {"qrules.ProblemSet"},
    "qrules.Edge": {"qrules.Edge"},
    "qrules.Parity": {"qrules.Parity"},
}

# positional parameters (and defaults, written as constants) of external callables
SIGNATURES = {
    "ampform.FormFactor": (["s", "m1", "m2", "angular_momentum", "meson_radius"], {"meson_radius": 1}),
    "ampform.EnergyDependentWidth": (
        ["s", "mass0", "gamma0", "m_a", "m_b", "angular_momentum", "meson_radius", "phsp_factor", "name"],
        {"phsp_factor": "ext:ampform.PhaseSpaceFactor", "name": None}),
    "ampform.BreakupMomentum": (["s", "m1", "m2"], {}),
    "ampform.BreakupMomentumSquared": (["s", "m1", "m2"], {}),
    "ampform.PhaseSpaceFactor": (["s", "m1", "m2"], {}),
    "ampform.Kallen": (["x", "y", "z"], {}),
    "sympy.CG": (["j1", "m1", "j2", "m2", "j3", "m3"], {}),
    "sympy.WignerD": (["j", "m", "mp", "alpha", "beta", "gamma"], {}),
    "qrules.FrozenTransition": (["topology", "states", "interactions"], {}),
    "qrules.MutableTransition": (["topology", "states", "interactions"], {}),
    "qrules.ReactionInfo": (["transitions", "formalism"], {}),
    "qrules.State": (["particle", "spin_projection"], {}),
    "qrules.ProblemSet": (["initial_facts", "solving_settings", "topology"], {}),
    "tensorwaves.ParametrizedBackendFunction": (["function", "argument_order", "parameters"], {}),
    "tensorwaves.function.sympy.create_function": (["expression", "backend"], {}),
    "tensorwaves.function.sympy.create_parametrized_function": (["expression", "parameters", "backend"], {}),
}
# arguments that only influence how an object is displayed
DISPLAY_ONLY = {("ampform.EnergyDependentWidth", "name")}


class Config:
    def __init__(self):
        self.skip_validators = False
        self.skip_post_init = ()  # classes of which the consistency checks are taken as given
        self.cuts = {}  # qualified name -> True: keep calls of this function uninterpreted

    def ext_field_type(self, typ, name):
        n = typ[1]
        if n in ("qrules.FrozenTransition", "qrules.MutableTransition"):
            return _trans(typ, name)
        return FIELDS.get(n, {}).get(name)

    def ext_isinstance(self, name, target, op, implied=False):
        sup = SUPERS.get(name)
        if sup is None:
            return None
        if op == "cls":
            return False
        if target in sup:
            return True
        short = target.split(".")[-1]
        if short in ("object", "Hashable"):
            return True
        if name in ("sympy.Expr",) and target.startswith("sympy."):
            return None
        if name == "sympy.Rational" and target == "sympy.Integer":
            return None
        if name in ("sympy.Indexed", "sympy.Symbol", "sympy.Rational", "sympy.Integer") and short in (
                "Iterable", "Sequence", "Mapping", "Sized", "Container", "Collection"):
            return False
        if name.startswith("sympy.") and short in ("SupportsFloat", "SupportsInt", "Callable", "Number", "Real", "Rational"):
            return None
        return False

    def ext_truthy(self, name):
        return name in ("qrules.State", "qrules.Particle", "qrules.InteractionProperties", "qrules.Topology",
                        "qrules.FrozenTransition", "sympy.Symbol")

    def cut(self, it, st, fi, args, kwargs):
        h = self.cuts.get(fi.qual)
        if h is None:
            return None
        return h(it, st, fi, args, kwargs)
