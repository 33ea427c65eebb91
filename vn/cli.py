"""
Command line: decides the obligations of one property and writes its evidence.

Exit 0: no obligation is violated (undecided obligations are listed in the evidence).
Exit 1: at least one obligation is violated by a construct the known-findings file does not list.
Exit 2: the analysis could not run.
"""
import json
import os
import sys
import time
import traceback

from . import nodes as V
from .check import Context, HERE

EVID = os.environ.get("VN_EVID") or os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
TRUST = [
    "vn/: the analyser (loader, evaluator, library model, comparison)",
    "specs/: the reference definitions, written from the documentation and the mathematics",
    "vn/ext.py: algebraic laws assumed of numpy, pandas, shapely, skyfield and the standard library",
    "numbers are treated as exact reals; floating-point rounding is outside the analysis",
]


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: "):
                    w = line[len("known: "):].split(" ", 2)
                    if w[0] == "property=" + prop:
                        out.append((w[1], w[2] if len(w) > 2 else ""))
    return out


def text(detail):
    if isinstance(detail, tuple):
        w, c, s = detail
        if c.op == "missing" and s.op == "missing":
            return w
        return f"{w}: code gives {V.show(c)[:700]} ; required {V.show(s)[:700]}"
    return str(detail)


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    try:
        ctx = Context(scale=4 if tier == "thorough" else 1)
        ctx.seed = seed
        results = ctx.run(prop)
    except SyntaxError as e:
        print(f"cannot parse the source: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = known_findings(prop)
    bad, old = [], []
    for r in results:
        if r.status == "violated":
            k = [n for a, n in known if a == r.anchor]
            (old if k else bad).append((r, k[0] if k else ""))
    by = {}
    for r in results:
        by.setdefault(r.status, []).append(r)
    rule = sorted({getattr(r, "rule", None) or "value-graph equivalence with the reference" for r in results})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's source; nothing is executed. Each obligation is one "
                           "construct (function, model field, constant, file) decided for all inputs by the rule named.",
            "rules": rule,
            "obligations": len([r for r in results if r.status != "expanded"]),
            "discharged": len(by.get("proved", [])),
            "violated": len(by.get("violated", [])),
            "undecided": [{"construct": r.anchor, "where": r.loc, "why": text(r.detail)[:400]} for r in by.get("undecided", [])],
            "judged_through_callers": [r.anchor for r in by.get("expanded", [])],
            "modules_parsed": len([m for m in ctx.p.modules.values() if not m.name.startswith("specs.")]),
            "functions_in_program": len(ctx.code_funcs),
            "comparison_steps": sum(r.steps for r in results),
            "samples": [
                {"construct": r.anchor, "where": r.loc, "status": r.status, "rounds": r.rounds,
                 "rule": getattr(r, "rule", None) or "value-graph equivalence"}
                for r in results
            ][:400],
            "trusted_base": TRUST,
        },
        "assumptions": TRUST[2:],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    if not results:
        ev["coverage"]["explanation"] += " No obligation is registered for this property."
    with open(os.path.join(EVID, prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for r, note in old:
        print(f"KNOWN-FINDING: property={prop} {r.anchor} {note}")
    if bad:
        path = os.path.join(EVID, prop + ".violation.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump([
                {"construct": r.anchor, "where": r.loc, "difference": text(r.detail),
                 "rerun": f"python3-vt bin/check {prop}"} for r, _ in bad], f, indent=1)
            f.write("\n")
        print(f"VIOLATION property={prop} replay={path}")
        for r, _ in bad:
            print(f"  {r.loc}: {r.anchor}: {text(r.detail)[:1200]}")
        return 1
    n = len(by.get("proved", []))
    print(f"OK property={prop} obligations={ev['coverage']['obligations']} discharged={n} "
          f"undecided={len(by.get('undecided', []))}")
    for r in by.get("undecided", []):
        print(f"  undecided {r.loc}: {r.anchor}: {text(r.detail)[:300]}")
    return 0
