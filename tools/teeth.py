#!/usr/bin/env python3
"""Tests the specification, not the library: alters single observations of
recorded behaviours and reports those the specification accepts all the same.
usage: teeth.py [SEED [Cal|Mem|Obj]]   (development tool; not part of a check)"""
import json, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import calcheck as C, families as F, profiles as P

INPUT = {"e", "m", "a", "p", "pa", "f", "N", "fid", "nm", "d", "d0", "c", "pos", "s", "n", "vt", "vts", "why", "unk", "sn", "name", "id"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            if not (len(path) == 0 and k in INPUT) and not (k == "d"):
                yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        yield path
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def alter(e, path, r):
    e = json.loads(json.dumps(e))
    p = e
    for k in path[:-1]:
        p = p[k]
    v = p[path[-1]]
    if isinstance(v, list):
        x = r.random()
        if v and x < .4:
            v.pop(r.randrange(len(v)))
        elif len(v) > 1 and x < .7:
            i, j = r.sample(range(len(v)), 2)
            if v[i] == v[j]:
                return None
            v[i], v[j] = v[j], v[i]
        elif v:
            v.append(v[-1])
        else:
            v.append(1)
    elif isinstance(v, int):
        p[path[-1]] = 1 - v if v in (0, 1) and r.random() < .5 else v + r.choice([-1, 1]) if v > 0 else v + 1
    elif isinstance(v, str):
        return None
    return e


def pattern(path):
    return ".".join("*" if isinstance(k, int) else k for k in path)


def run(env, lines, name, r, stat, module="TeethCal", per=4, variant="scaled"):
    ex = C.execute(env, variant, lines, name)
    evs = [json.loads(l) for l in ex["events"]]
    rows = []
    for e in evs:
        L = list(leaves(e))
        by = {}
        for x in L:
            by.setdefault(pattern(x), []).append(x)
        ks = list(by)
        r.shuffle(ks)
        alts = []
        for k in ks[:per]:
            x = alter(e, r.choice(by[k]), r)
            if x is not None and x != e:
                alts.append((k, x))
        rows.append((e, alts))
    for _ in range(60):
        d = env.path("teeth")
        tp = os.path.join(d, "trace.ndjson")
        open(tp, "w").write("\n".join(json.dumps({"e": e, "alts": [x for _, x in a]}) for e, a in rows) + "\n")
        out = C.tlc(env, module, module + ".cfg", [], {"TRACE": tp})["out"]
        tries = [tuple(map(int, t)) for t in re.findall(r'<<"TRY", (\d+), (\d+)>>', out)]
        sw = {tuple(map(int, t)) for t in re.findall(r'<<"SWALLOWED", (\d+), (\d+)>>', out)}
        if "No error has been found" in out:
            break
        if not tries:
            print(name, "TLC failed", out[-600:])
            return
        i, j = tries[-1]          # could not even be evaluated: rejected
        key = (kind(rows[i-1][0]), rows[i-1][1][j-1][0])
        rows = [(e, [a for a in al if (kind(e), a[0]) != key]) for e, al in rows]
        stat.setdefault(key, [0, 0, None])[0] += 1
    if "REJECTED" in out:
        print(name, "unaltered event rejected", re.findall(r'<<"REJECTED".*', out)[:2])
    for i, j in tries:
        e, alts = rows[i-1]
        k, x = alts[j-1]
        s = stat.setdefault((kind(e), k), [0, 0, None])
        s[0] += 1
        if (i, j) in sw:
            s[1] += 1
            if s[2] is None or r.random() < .2:
                s[2] = (e, x)


def kind(e):
    return e["e"] + ("." + str(e["f"]) if "f" in e and e["e"] in ("op", "q", "mw", "pw", "row", "qrow") else "")


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    r = random.Random(seed)
    env, stat = C.Env(), {}
    env.driver("scaled")
    try:
        jobs = []
        for f in ["deep(%d,12)", "revisit(%d,15)", "blocks(%d,3)", "reorders(%d,5)", "limits(%d,4)", "pipes(%d,4)", "arrays(%d,6,sizes=(2,5))"]:
            jobs.append((eval("F." + f % seed), f.split("(")[0], "TeethCal"))
        for p in P.PROFILES if len(sys.argv) < 3 or "Cal" in sys.argv[2] else []:
            pr = P.PROFILES[p]()
            bs, _ = C.generate(env, pr, seed, 1)
            L = []
            for b in bs:
                L += C.to_lines(b, pr["N"])
            jobs.append((L, "p_" + p, "TeethCal"))
        for tab, gen, conv, mod in ((P.MEM, "GenMem", lambda b, pr: C.mem_lines(b), "TeethMem"), (P.OBJ, "GenObj", lambda b, pr: C.obj_lines(b, pr["N"], pr["nv"]), "TeethObj")):
            for p in tab:
                if len(sys.argv) > 2 and sys.argv[2] not in mod:
                    continue
                pr = tab[p]()
                bs, _ = C.generate(env, pr, seed, 2, gen)
                L = []
                for b in bs:
                    L += conv(b, pr)
                jobs.append((L, mod + p, mod))
        if len(sys.argv) > 2:
            jobs = [j for j in jobs if sys.argv[2] in j[2]]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda j: run(env, j[0], j[1], random.Random(seed * 7 + len(j[1])), stat, j[2]), jobs))
    finally:
        env.close()
    for k, (n, s, x) in sorted(stat.items()):
        print("%-14s %-12s tried %4d accepted %4d%s" % (k[0], k[1], n, s, "  <<" if s * 4 > n else ""))
    with open("/tmp/teeth.json", "w") as f:
        json.dump([[k[0], k[1], n, s, x] for k, (n, s, x) in stat.items()], f)


if __name__ == "__main__":
    main()
