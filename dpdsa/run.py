import sys
from pathlib import Path
from . import terms as T
from .config import Config
from .interp import Interp, Ctx, Exits
from .project import load_modules, Module
import ast

def build(src="/repo/src", specs=None):
    mods = load_modules(Path(src), "ampform_dpd")
    return Interp(mods, Config())

if __name__ == "__main__":
    it = build()
    for m in it.modules:
        it.load(m); print("loaded", m)
