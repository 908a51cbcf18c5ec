"""Writes MANIFEST.json from the registered properties (run by hand: python3-vt mkmanifest.py)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "harness"), "/repo"]
sys.dont_write_bytecode = True
from registry import PROPERTIES

TECH = {
    "pure": "property-based testing (Hypothesis) against an independent reference model",
    "stream": "property-based testing of generated byte streams and schedules on a virtual event loop, against a reference model",
    "session": "property-based testing against a generated, fault-injecting reference gateway on a virtual event loop",
    "devices": "property-based testing with a scripted gateway and a reference table from the protocol documents, plus full enumeration of small domains",
    "events": "property-based testing of generated event histories on a virtual event loop against a reference decoder",
    "more": "property-based testing of generated multi-session histories on a virtual event loop against a reference model",
    "tcp": "property-based testing of generated multi-connection histories over real loopback TCP against a reference gateway",
    "extra": "property-based testing of generated inputs and histories on a virtual event loop against a reference model",
}
import registry, importlib
mod = {}
for m in TECH:
    for v in vars(importlib.import_module(m)).values():
        if type(v).__name__ == "Property":
            mod.setdefault(v.id, m)
checks = []
for pid in sorted(PROPERTIES):
    p = PROPERTIES[pid]
    note = "Generated-input search: no counterexample among the cases run. " + p.rule[0].upper() + p.rule[1:] + "."
    if p.assumptions:
        note += " Assumes: " + "; ".join(p.assumptions) + "."
    checks.append({"property": pid, "quick_cmd": f"bash run.sh {pid} quick", "thorough_cmd": f"bash run.sh {pid} thorough",
                   "technique": TECH[mod[pid]], "level": "exploration", "level_note": note})
doc = {"version": 1, "setup_cmd": "bash run.sh list", "checks": checks, "not_applicable": [],
       "notes": "Pure Python: nothing is built. Every check compiles /repo's working tree in memory, in process, and writes no byte code."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1, ensure_ascii=False)
    f.write("\n")
