"""Reference and drivers: opt-in helper functions."""
import logging
import warnings
from pathlib import Path

import qrules
import sympy as sp

import ampform_dpd
from ampform_dpd.adapter.qrules import load_particles
from ampform_dpd.io import mute_ampform_warnings, simplify_latex_rendering


def ref_particles():
    """All particles of QRules, extended with the definitions of this package."""
    particles = qrules.load_default_particles()
    particles.update(qrules.io.load(Path(ampform_dpd.__file__).parent / "particle-definitions.yml"))
    return particles


def ref_mute():
    logging.getLogger("ampform.sympy._cache").setLevel(logging.ERROR)
    warnings.filterwarnings("ignore", category=UserWarning, module="ampform_dpd.decay")


def latex_of_indexed(indexed, printer):
    simplify_latex_rendering()
    return sp.Indexed._latex(indexed, printer)


def latex(self, printer, *args):
    base = printer._print(self.base)
    indices = ", ".join(printer._print(i) for i in self.indices)
    return base + "_{" + indices + "}"


def ref_latex_of_indexed(indexed, printer):
    sp.Indexed._latex = latex
    return latex(indexed, printer)
