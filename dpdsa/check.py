"""Command line: decide one property (or all) on the current tree."""
from __future__ import annotations

import argparse
import json
import os
import sys
import time
import traceback
from pathlib import Path

from . import terms as T
from .harness import VERIF, Broken, Run
from .interp import Unsupported


def run_property(pid, tier, seed, src):
    from . import props

    t0 = time.time()
    p = props.REGISTRY[pid]
    try:
        r = Run(pid, tier, src)
        p.decide(r)
        r.finish()
    except Exception as e:  # noqa: BLE001
        print(f"ANALYSIS-BROKEN property={pid}: {type(e).__name__}: {e}")
        if os.environ.get("DPDSA_VERBOSE"):
            traceback.print_exc()
        return 2
    n = len(r.obligations)
    done = sum(1 for o in r.obligations if o[1] in ("equal", "known"))
    funcs = sorted(q for q in r.it.stats["functions"] if q.startswith("ampform_dpd"))
    if n < p.min_obligations:
        r.broken.append(f"only {n} obligations, {p.min_obligations} were confirmed by hand")
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": p.level,
        "coverage": {
            "obligations": n,
            "discharged": done,
            "explanation": p.explanation,
            "functions_analysed": len(funcs),
            "functions": funcs,
            "abstract_calls": r.calls,
            "anchors": sorted(r.sites),
            "unbounded_obligations": sum(1 for o in r.obligations if o[2] == "unbounded"),
            "structural_obligations": sum(1 for o in r.obligations if o[2] == "structural"),
            "obligations_on_shapes": [f"{o[0]}: {o[2]}" for o in r.obligations if "shapes" in o[2]],
            "samples": [f"{o[0]} -> {o[1]} ({o[2]})" for o in r.obligations[:40]],
        },
        "assumptions": p.assumptions + r.assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(r.violations),
    }
    out = VERIF / "evidence"
    out.mkdir(exist_ok=True)
    (out / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for kid in dict.fromkeys(k for k, _ in r.known):
        labels = [x for k, x in r.known if k == kid]
        print(f"KNOWN-FINDING: property={pid} {kid} {r.findings[kid]} [{len(labels)} obligations, e.g. {labels[0]}]")
    for label, where, rule, detail in r.violations:
        print(f"{where}: {label}\n    rule: {rule}\n    {detail[:1500]}")
    if r.violations:
        rep = out / f"{pid}.violation.txt"
        rep.write_text("\n".join(f"{w}: {l}\n    rule: {ru}\n    {d}" for l, w, ru, d in r.violations) + "\n")
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violation.txt")
        return 1
    if r.broken:
        for b in r.broken:
            print(f"ANALYSIS-BROKEN property={pid}: {b[:1500]}")
        return 2
    print(f"OK property={pid}: {done}/{n} obligations hold, {len(funcs)} functions analysed, {ev['wall_s']} s")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--src", default=os.environ.get("DPDSA_SRC", "/repo/src"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.property == "all":
        from . import props

        rc = 0
        for pid in sorted(props.REGISTRY):
            rc = max(rc, run_property(pid, a.tier, seed, a.src))
        sys.exit(rc)
    sys.exit(run_property(a.property, a.tier, seed, a.src))


if __name__ == "__main__":
    main()
