#!/usr/bin/env python3
"""check.py Cxx: decides one property on /repo's working tree.

Every property has a list of tasks (tools/tasks.py): behaviours the
specification generates, directed families of calls, and model checks of the
specification itself.  Calls are executed on the real library and TLC decides
whether what was recorded is a behaviour of the specification."""
import json, os, random, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import calcheck as C, tasks as T

KNOWN = os.path.join(C.VERIF, "known_findings")


def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: property=%s " % prop):])
    return out


def run(env, t):
    t0 = time.time()
    if t["kind"] == "mc":
        r = C.tlc(env, t["module"], t["cfg"], t.get("extra", []), t.get("env", {}), workers=t.get("workers", 2), heap=t.get("heap", "3g"), timeout=t.get("timeout", 800))
        res = C.Result()
        if "No error has been found" not in r["out"] and not (t.get("simulate") and r["rc"] == 0 and "Error:" not in r["out"]):
            raise C.CheckError("model check %s of the specification failed:\n%s" % (t["cfg"], r["out"][-2500:]))
        res.states, res.transitions = r["states"], r["transitions"]
        res.mc.append({"model": t["module"], "config": t["cfg"], "distinct_states": r["states"], "transitions": r["transitions"], "wall_s": round(r["wall"], 1)})
        return res
    if t["kind"] == "gen":
        prof = t["profile"]
        bs, g = C.generate(env, prof, t["seed"], t["num"], t.get("gen", "GenCal"))
        lines = [l for b in bs for l in t.get("lines", C.to_lines)(b, prof["N"])]
        res = C.judge(env, t["variant"], lines, t["name"], t.get("module", "TraceCal"), heap=t.get("heap", "2g"))
        res.gen_states += g["states"]
    else:
        res = C.judge(env, t["variant"], t["lines"], t["name"], t.get("module", "TraceCal"), heap=t.get("heap", "2g"), seconds=t.get("seconds", 300))
    if t["kind"] != "mc" and os.environ.get("CAL_TIMES"):
        print("%6.1f s  %7d events  %s %s" % (time.time() - t0, res.events, t["name"], t["variant"]), file=sys.stderr)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    tl = T.tasks(prop, tier, C.SEED)
    env = C.Env()
    total = C.Result()
    errors = []
    try:
        with ThreadPoolExecutor(8) as ex:
            variants = sorted({t["variant"] for t in tl if "variant" in t}, key=lambda v: -sum(1 for t in tl if t.get("variant") == v))
            builds = [ex.submit(env.driver, v) for v in variants]
            for b in builds:
                b.result()
            def one(t):
                try:
                    return run(env, t)
                except C.CheckError as e:
                    errors.append("%s: %s" % (t["name"], e))
                except Exception:
                    errors.append("%s: %s" % (t["name"], traceback.format_exc()))
                return C.Result()
            tl.sort(key=lambda t: -t.get("cost", 1))
            for r in ex.map(one, tl):
                total.add(r)
        for n in env.notes:
            total.notes.append(n)
    finally:
        env.close()
    for k in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ev = {"property": prop, "tier": tier, "seed": C.SEED, "level": "model_checking", "wall_s": round(time.time() - t0, 1),
          "coverage": {"states": total.states + total.gen_states, "transitions": total.transitions,
                       "traces_validated_against_impl": total.traces, "events_validated_against_impl": total.events,
                       "calls_by_kind": dict(sorted(total.cov.items())), "model_checks": total.mc, "tasks": len(tl), "builds": sorted({t["variant"] for t in tl if "variant" in t}),
                       "samples": total.samples[:6], "notes": total.notes[:40], "violations": len(total.violations)}}
    os.makedirs(os.path.join(C.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(C.VERIF, "evidence", prop + ".json"), "w"), indent=1)
    rc = 0
    for i, v in enumerate(total.violations):
        d = C.save_violation(prop, i, v)
        print("VIOLATION property=%s replay=%s" % (prop, d))
        print("  task %s (%s build), event %d: %s" % (v["name"], v["variant"], v["at"], v["events"][v["at"] - 1][:300]))
        for m in v["mismatch"]:
            print("  " + m)
        rc = 1
    if errors and rc == 0:
        for e in errors:
            print("ERROR " + e)
        return 2
    for e in errors:
        print("note: " + e[:500])
    print("%s %s: %d traces, %d events, %d states, %.1f s, %d violation(s)" % (prop, tier, total.traces, total.events, total.states, time.time() - t0, len(total.violations)))
    return rc


if __name__ == "__main__":
    sys.exit(main())
