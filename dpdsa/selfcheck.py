"""Set-up step: the engine imports, the reference definitions parse, and every property has a decision procedure."""
from __future__ import annotations

import ast
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent


def main():
    from . import props

    for p in sorted((HERE / "specs").glob("*.py")):
        ast.parse(p.read_text())
    man = json.loads((HERE / "MANIFEST.json").read_text())
    missing = {c["property"] for c in man["checks"]} ^ set(props.REGISTRY)
    if missing:
        print("claims and decision procedures differ:", sorted(missing))
        sys.exit(1)
    print(f"{len(props.REGISTRY)} properties, ok")


if __name__ == "__main__":
    main()
