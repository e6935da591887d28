#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from registry import PROPS  # noqa: E402

ids = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    mods = ", ".join(m["module"] for m in p.get("models", []))
    trs = ", ".join(t["trace"] for t in p["traces"])
    gens = ", ".join(g["module"] for t in p["traces"] for g in t.get("gen", []))
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 harness/check.py {i} quick",
        thorough_cmd=f"python3 harness/check.py {i} thorough",
        technique="TLA+ specification checked by TLC"
        + (f" ({mods})" if mods else "")
        + (f"; behaviours generated by TLC ({gens}) replayed on the code" if gens else "")
        + f"; recorded traces validated by TLC ({trs})",
        level=p["level"],
        level_note=p.get("note", "The invariants hold on every state of the bounded model; every recorded execution of the real "
                                 "code was accepted by the same specification. Trusted: TLC, the exact/64-digit arithmetic override "
                                 "(java/), the recorder. Executions not recorded are not covered."),
    ))
json.dump(dict(
    version=1,
    setup_cmd="python3 harness/check.py --build",
    checks=checks,
    not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in PROPS],
    notes="TLA+ with TLC; see DESIGN.md. No hooks in /repo are needed: everything is observed through the public API.",
), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
