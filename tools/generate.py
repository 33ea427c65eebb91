"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties import PROPERTIES, NOT_APPLICABLE

SPECIAL = {
    "C06": "value-graph equivalence of lazy methods; lint of results kept between calls",
    "C17": "value-graph equivalence restricted to table layouts, for all paths",
    "C18": "interprocedural alias and effect analysis on the syntax tree",
    "C30": "value-graph equivalence; lint of import-time reads of the settings; shipped-file comparison",
    "C31": "comparison of model field tables (types, defaults, limits, validators) with reference tables",
}
NOTE = {
    "C18": "Flow-sensitive may-alias analysis over every function with call summaries; a store that certainly "
           "reaches a parameter or shared module state is reported, one that merely may is listed as undecided. "
           "Assumes third-party calls return fresh objects unless known otherwise.",
    "C31": "Every field of every public model is compared with a reference table, validators as functions over all "
           "values. Trusts pydantic to enforce declared types and limits.",
}
DEFAULT = ("Decided for all inputs by comparing the value graph of each function (all paths, loops as folds) with a "
           "reference definition, over exact reals; assumes the algebraic laws of library calls listed in vn/ext.py. "
           "Constructs outside the modelled subset are reported as undecided in the evidence, never as violations.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for pid, title, stmt, over, q, why, files, mech in PROPERTIES:
            assert len(title) <= 80, pid
            f.write(json.dumps({
                "id": pid, "title": title, "statement": stmt,
                "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "hook_needed": None},
            }) + "\n")
    checks = []
    for pid, *_ in PROPERTIES:
        if pid in NOT_APPLICABLE:
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"bin/check {pid} --tier quick",
            "thorough_cmd": f"bin/check {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "static analysis: " + SPECIAL.get(pid, "value-graph equivalence with a reference definition"),
            "level": "other",
            "level_note": NOTE.get(pid, DEFAULT),
        })
    m = {
        "version": 1,
        "setup_cmd": "python3-vt -c \"import mpmath, yaml\" && bin/check C01 > /dev/null",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
        "notes": "No hooks are needed: the checks parse /repo's source and never import it. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
