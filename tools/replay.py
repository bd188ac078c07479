#!/usr/bin/env python3
"""Replays a recorded violation: replay.py DIR (as printed by a check) or replay.py SCRIPT VARIANT [MODULE]."""
import json, os, sys
import calcheck as C
d = sys.argv[1]
if os.path.isdir(d):
    how = json.load(open(os.path.join(d, "how.json")))
    script, variant, module = os.path.join(d, "script"), how["variant"], how["module"]
else:
    script, variant, module = d, sys.argv[2], (sys.argv[3] if len(sys.argv) > 3 else "TraceCal")
env = C.Env()
try:
    lines = open(script).read().split("\n")
    r = C.judge(env, variant, lines, "replay", module)
    for n in r.notes: print("note:", n)
    for v in r.violations:
        print("REJECTED at event", v["at"], v["events"][v["at"] - 1][:1500])
        print("\n".join(v["mismatch"])); print(v["err"][-1500:])
    print("events", r.events, "traces", r.traces)
    sys.exit(1 if r.violations else 0)
finally:
    env.close()
