#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property files present in harness/props."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = {
    "C01": "property-based testing: generated circuits, whole protocol runs against a clear-evaluation model",
    "C02": "property-based testing: generated circuits, whole protocol runs against a clear-evaluation model",
    "C03": "property-based testing: generated circuits against an expression-tree model",
    "C04": "property-based testing: invariants over generated preprocessing runs (interpolation model)",
    "C05": "property-based testing: invariant over generated runs plus metamorphic transcript comparison",
    "C06": "property-based testing: metamorphic transcript counting over generated runs",
    "C07": "property-based testing: generated misuse sequences against an acceptance model",
    "C17": "property-based testing: metamorphic rank, coverage and determinism relations over generated seeds",
    "C20": "model-based stateful testing: generated operation histories and threaded schedules",
    "C21": "property-based testing: generated traffic, chunkings and injected short transfers over loopback sockets",
    "C22": "property-based testing and byte-level fuzzing: round trips and a reference parser",
    "C23": "property-based testing: generated topologies, start-up orders and schedules",
    "C24": "property-based testing and byte-level fuzzing: generated files against a reference parser",
    "C25": "property-based testing and fuzzing: generated peers, orders and hostile messages over loopback sockets",
    "C26": "property-based testing: generated schedules with injected delays, differential against lock-step, under ThreadSanitizer",
    "C27": "property-based testing: invariants and randomness ranks over generated runs (interpolation model)",
    "C29": "property-based testing: algebraic independence of view and wire values (ranks of runs and of tangent vectors) over generated circuits, coalitions and parameters",
    "C30": "property-based testing: generated chains of steps against an interpreter; generated multi-party runs",
    "C28": "property-based testing: the shipped programs under generated sizes and schedules, with and without ThreadSanitizer",
}
NOTE = {}
DEF_NOTE = ("Generated-input search against an explicit oracle; no finding means none among the cases counted in the evidence file. "
            "Trusts the reference models in harness/, the compiler and its sanitizers.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "harness/props", i + ".cc")):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py check {i} --tier quick",
            "thorough_cmd": f"python3 run.py check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH.get(i, "property-based testing: generated inputs against a reference model"),
            "level": "exploration",
            "level_note": NOTE.get(i, DEF_NOTE),
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "Checks take /repo's sources as they are (no hooks); see DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
