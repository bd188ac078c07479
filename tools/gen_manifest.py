#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have tasks."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import tasks as T
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SPEC = {"C18": "spec/CalMem.tla", "C19": "spec/CalObj.tla"}
NOTE = {
    "C18": "TLC generates histories of block and record requests from CalMem.tla and checks that every recorded history of the real allocator is one of its behaviours. Bounded histories; alignment, overlap and content of every live block are observed after every call.",
    "C19": "TLC generates histories of wrapper statements from CalObj.tla and validates what was recorded from the real header against it: value and reference count behind every live object after every statement. Bounded histories.",
}
DEF = ("TLC generates call histories from the TLA+ specification of the package (CalSteps.tla) and decides, event by event, whether what the real library "
       "(compiled from /repo's working tree, as shipped and with small tuning constants) answered is a behaviour of that specification. Not a proof: bounded histories, "
       "functions of up to 6 exactly tracked variables (more are sampled); trusts TLC, the compiler and the driver's evaluation of diagrams.")
checks = [{"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 tools/check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p["id"],
           "evidence_file": "evidence/%s.json" % p["id"],
           "technique": "explicit TLA+ specification (%s); TLC-generated histories replayed into the library, recorded traces validated against the specification by TLC" % SPEC.get(p["id"], "spec/Cal*.tla"),
           "level": "model_checking", "level_note": NOTE.get(p["id"], DEF)} for p in props if p["id"] in T.TABLE]
m = {"version": 1, "setup_cmd": "python3 -m compileall -q tools && make -n -C driver OUT=/tmp/calverif-setup >/dev/null",
     "hooks": {"guard": "CAL_VERIF_TUNING", "enable": "driver/Makefile compiles /repo/src with -DCAL_VERIF_TUNING and the constants it then expects (variants scaled, asan, bf, df); variants stock and stockasan are built without it",
               "source_commits": ["10f090b" if len(sys.argv) < 2 else sys.argv[1]]},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": "specification not yet connected to the code"} for p in props if p["id"] not in T.TABLE],
     "notes": "Model-based verification with TLA+/TLC; see DESIGN.md. Known findings and repaired defects: known_findings."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
