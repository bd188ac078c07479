"""Profiles of generated behaviours: which managers, which calls how often.

A profile is handed to TLC (spec/GenCal.tla), which chooses the behaviour;
nothing here knows what a call should return."""

ALLQ = ["size", "sizem", "prof", "profm", "fprof", "fprofm", "supp", "dep", "type", "ifid", "ifidx", "eq", "isone", "iszero", "isconst", "isnull",
        "cube", "frac", "walk", "nodes", "vars", "rc", "stats", "pprof", "pprofm", "pfprof", "pfprofm", "isprov"]
TECHS = [[0, 0], [1, 0], [2, 0], [1, 1], [2, 1]]
BOOL = dict(zip(["and", "or", "xor", "nand", "nor", "xnor", "ite", "not", "id"], [2] * 7 + [1, 1]))
LIFE = {"free": 6, "dec": 1, "unfree": 1, "revive": 1, "gc": 2}


def prof(N=4, nvars=None, depth=300, maxmgr=1, null=1, unkassoc=0, queries=("eq", "size"), pars=((5, 100, 0.75, 10),), limits=(0, 10),
         depths=(0, 1, 2, 4, 6), prefix=(), techs=TECHS, idles=(1, 2, 5, 12, 27), maxvars=60, **w):
    kinds = []
    for k, n in w.items():
        kinds += [k] * n
    return {"count": 1, "depth": depth, "N": N, "nullpct": null, "maxmgr": maxmgr, "unkassoc": unkassoc,
            "prefix": ["var"] * (N if nvars is None else nvars) + list(prefix), "kinds": kinds, "techs": techs, "params": [list(p) for p in pars],
            "limits": list(limits), "depths": list(depths), "queries": list(queries), "idles": list(idles), "maxvars": maxvars}


def mix(*ds, **more):
    r = {}
    for d in ds + (more,):
        for k, v in d.items():
            r[k] = r.get(k, 0) + v
    return r


REORD = {"reorder": 2, "dyn": 1}
ASSOC = {"ainit": 2, "aset": 3, "aquit": 1, "tinit": 1, "taug": 1, "tquit": 1}
QUANT = {"ex": 3, "all": 2, "rp": 3}
SUBST = {"sub": 3, "vsub": 3, "comp": 3, "swap": 3}
CARE = {"cof": 3, "red": 3, "btw": 2}
WITN = {"sat": 3, "sats": 3, "inter": 3, "impl": 3}
PIPE = {"pi": 4, "pc": 14, "px": 4, "pu": 6, "pq": 2, "psetdepth": 1}
FILES = {"dump": 4, "undump": 5}

PROFILES = {
    # everything at once
    "all": lambda N=4, d=300, **k: prof(N=N, depth=d, queries=ALLQ, **mix(BOOL, LIFE, REORD, ASSOC, QUANT, SUBST, CARE, WITN, PIPE, FILES,
                                        {"mw": 2, "pw": 2, "q": 6, "const": 1, "vid": 1, "vidx": 1, "reg": 1, "then": 1, "else": 1, "if": 1, "snap": 1, "blk": 1, "blkre": 1,
                                         "pr": 1, "fpr": 1, "params": 1, "gcmode": 1}), **k),
    "bool": lambda N=4, d=300, **k: prof(N=N, depth=d, **mix(BOOL, LIFE, {"mw": 4, "pw": 4, "dyn": 1, "reorder": 1, "snap": 1, "const": 1}), **k),
    "canon": lambda N=4, d=300, **k: prof(N=N, depth=d, queries=["eq", "rc"], **mix(BOOL, LIFE, REORD, PIPE, FILES, SUBST, QUANT, {"ainit": 1, "aset": 1, "snap": 2, "q": 4, "mw": 1, "pw": 1, "revive": 3}), **k),
    "gc": lambda N=4, d=300, **k: prof(N=N, depth=d, **mix(BOOL, LIFE, LIFE, {"snap": 3, "gc": 4, "ainit": 1, "aset": 1, "aquit": 1, "tinit": 1, "ex": 2, "rp": 1, "sub": 1, "gcmode": 1, "gclimit": 1, "reorder": 1, "dyn": 1, "comp": 1, "cof": 1, "undump": 1, "dump": 1}), **k),
    "nogc": lambda N=4, d=300, **k: prof(N=N, depth=d, techs=[[0, 0]], **mix(BOOL, LIFE, QUANT, SUBST, CARE, WITN, PIPE, {"gcmode": 3, "gclimit": 1, "snap": 1, "mw": 2, "pw": 2, "ainit": 1, "aset": 1, "tinit": 1, "reorder": 1, "dyn": 1}), **k),
    "refs": lambda N=3, d=300, **k: prof(N=N, depth=d, queries=["rc"], **mix({"and": 2, "or": 2, "xor": 2, "not": 2, "id": 3, "reg": 2}, LIFE, {"unfree": 4, "dec": 3, "revive": 3, "free": 4, "q": 8, "vid": 1, "vidx": 1, "const": 1, "if": 1, "then": 1, "else": 1, "gc": 1, "reorder": 1, "dyn": 1, "snap": 1, "mw": 1, "pw": 1, "comp": 1, "swap": 1, "ite": 1, "cof": 1, "sat": 1, "btw": 1, "inter": 1, "impl": 1, "ex": 1, "sub": 1}), **k),
    "reorder": lambda N=5, d=300, **k: prof(N=N, depth=d, techs=[[1, 0], [2, 0], [1, 1], [2, 1], [1, 0], [2, 0], [1, 1], [2, 1], [0, 0]], **mix(BOOL, {"reorder": 8, "dyn": 5, "free": 5, "gc": 1, "snap": 3, "ex": 1, "ainit": 1, "aset": 1, "tinit": 1, "sub": 1, "comp": 1, "swap": 1, "params": 1, "pw": 1, "mw": 1, "cof": 1, "vid": 1, "vidx": 1, "q": 2, "var": 1}), **k),
    "block": lambda N=6, d=200, **k: prof(N=N, nvars=k.pop("nv", 4), depth=d, techs=[[1, 1], [2, 1]], prefix=["blk", "blk", "blkre"], **mix(BOOL, {"reorder": 8, "dyn": 3, "blkre": 5, "blk": 5, "var": 4, "free": 4, "gc": 1, "ainit": 1, "snap": 1}), **k),
    "newvar": lambda N=6, d=200, **k: prof(N=N, nvars=1, depth=d, queries=["ifid", "ifidx", "supp", "vars"], **mix(BOOL, ASSOC, PIPE, {"var": 6, "idle": 1, "vid": 3, "vidx": 4, "if": 2, "q": 4, "free": 3, "gc": 1, "reorder": 2, "dyn": 1, "ex": 2, "sub": 2, "snap": 1, "const": 1}), **k),
    "assoc": lambda N=4, d=300, **k: prof(N=N, nvars=k.pop("nv", 3), depth=d, **mix({"and": 2, "or": 2, "xor": 2, "ite": 1, "not": 1}, ASSOC, ASSOC, QUANT, {"sub": 4, "vsub": 3, "sats": 2, "free": 6, "gc": 3, "reorder": 2, "dyn": 1, "snap": 2, "var": 1}), **k),
    "assocwide": lambda N=4, d=200, **k: prof(N=N, nvars=2, depth=d, prefix=["idle"], idles=[1, 2, 25, 26, 27, 28], **mix({"and": 2, "or": 2, "xor": 2, "ite": 1, "not": 1}, ASSOC, QUANT, {"sub": 3, "vsub": 2, "sats": 2, "comp": 1, "swap": 1, "free": 5, "gc": 2, "reorder": 1, "dyn": 1, "snap": 1, "var": 2, "idle": 2}), **k),
    "quant": lambda N=4, d=300, **k: prof(N=N, depth=d, **mix({"and": 3, "or": 2, "xor": 3, "ite": 2, "not": 1}, ASSOC, QUANT, QUANT, QUANT, {"free": 4, "gc": 1, "reorder": 1, "dyn": 1, "snap": 1, "tinit": 2, "taug": 2}), **k),
    "subst": lambda N=4, d=300, **k: prof(N=N, depth=d, **mix({"and": 3, "or": 2, "xor": 3, "ite": 2, "not": 1}, ASSOC, SUBST, SUBST, SUBST, {"free": 4, "gc": 1, "reorder": 1, "dyn": 1, "snap": 1}), **k),
    "care": lambda N=4, d=300, **k: prof(N=N, depth=d, **mix({"and": 3, "or": 2, "xor": 3, "ite": 2, "not": 1, "const": 1}, CARE, CARE, CARE, {"free": 4, "gc": 1, "reorder": 1, "dyn": 1, "snap": 1}), **k),
    "witness": lambda N=4, d=300, **k: prof(N=N, depth=d, queries=["cube", "frac"], **mix({"and": 4, "or": 2, "xor": 3, "ite": 2, "not": 1, "const": 1}, WITN, WITN, {"ainit": 1, "aset": 1, "tinit": 1, "taug": 1, "q": 6, "free": 4, "gc": 1, "reorder": 1, "dyn": 1, "snap": 1}), **k),
    "pipe": lambda N=4, d=300, **k: prof(N=N, depth=d, queries=["isprov", "eq", "size"], **mix({"and": 1, "or": 1, "xor": 2, "ite": 1, "not": 1}, PIPE, PIPE, {"gc": 2, "reorder": 2, "dyn": 1, "free": 3, "snap": 1, "q": 2, "ex": 1, "mw": 1, "pw": 1, "comp": 1, "cof": 1, "ainit": 1, "aset": 1, "var": 1}), **k),
    "files": lambda N=4, d=200, **k: prof(N=N, nvars=k.pop("nv", 3), depth=d, maxmgr=2, **mix({"and": 2, "or": 2, "xor": 2, "ite": 2, "not": 1}, FILES, FILES, {"damage": 3, "free": 4, "gc": 1, "reorder": 1, "dyn": 1, "snap": 1, "var": 2, "minit": 1, "switch": 3}), **k),
    "inspect": lambda N=4, d=250, **k: prof(N=N, depth=d, queries=ALLQ, **mix(BOOL, {"q": 40, "free": 3, "gc": 1, "reorder": 2, "dyn": 1, "snap": 2, "mw": 1, "pw": 1, "const": 1, "if": 1, "then": 2, "else": 2, "unfree": 1, "revive": 1, "comp": 1, "pi": 1, "pc": 3, "px": 1, "pu": 1, "pq": 1, "pr": 2, "fpr": 2, "dump": 1, "undump": 1}), **k),
    "limit": lambda N=5, d=300, **k: prof(N=N, depth=d, null=8, limits=[0, 8, 12, 16, 20, 30, 1, -5], **mix(BOOL, LIFE, QUANT, SUBST, CARE, WITN, PIPE, {"limit": 6, "ovf": 3, "mw": 2, "pw": 4, "ainit": 1, "aset": 1, "reorder": 1, "dyn": 1, "snap": 1, "q": 2, "dump": 1, "undump": 1, "reg": 1, "if": 1, "then": 1, "else": 1}), queries=["stats", "nodes", "size", "sizem", "eq", "isnull", "type", "ifid", "frac", "dep", "isone", "iszero", "isconst"], **k),
    "repeat": lambda N=3, d=400, **k: prof(N=N, depth=d, **mix(BOOL, ASSOC, QUANT, SUBST, CARE, WITN, PIPE, {"free": 16, "gc": 4, "reorder": 3, "dyn": 1, "snap": 1, "dump": 1, "undump": 1, "var": 1, "mw": 1, "pw": 1}), **k),
    "managers": lambda N=4, d=400, **k: prof(N=N, nvars=3, depth=d, maxmgr=4, queries=["vars", "nodes", "stats", "size", "rc"], limits=[0, 30, 100], **mix(BOOL, ASSOC, QUANT, PIPE, FILES, {"minit": 2, "mquit": 2, "switch": 12, "var": 8, "idle": 1, "hset": 2, "hget": 2, "limit": 2, "params": 1, "dyn": 2, "reorder": 2, "gc": 2, "free": 6, "snap": 1, "q": 4, "ovf": 1, "sub": 1}), **k),
    "print": lambda N=4, d=200, **k: prof(N=N, depth=d, queries=["pprof", "pprofm", "pfprof", "pfprofm", "size"], **mix(BOOL, {"pr": 14, "fpr": 10, "q": 10, "free": 3, "gc": 1, "reorder": 2, "dyn": 1, "snap": 1, "const": 1, "cof": 1}), **k),
}


def mem(depth=400, sizes=(1, 8, 24, 25, 88, 100, 500, 2000, 4000, 5000, 30000, 32700, 40000), recs=(1, 8, 9, 24, 100, 1000), **w):
    kinds = []
    for k, n in (w or {"get": 8, "free": 6, "resize": 6, "fresh": 1, "nop": 1, "core": 1, "newmgr": 1, "freemgr": 1, "new": 10, "del": 6}).items():
        kinds += [k] * n
    return {"N": 0, "depth": depth, "kinds": kinds, "sizes": list(sizes), "recs": list(recs)}


MEM = {
    "mem": lambda depth=400, **k: mem(depth, **k),
    "memblocks": lambda depth=400, **k: mem(depth, get=8, free=7, resize=6, fresh=1, nop=1, core=1),
    "memsmall": lambda depth=400, **k: mem(depth, sizes=(0, 1, 7, 8, 20, 24, 25, 60, 88, 89, 200), get=8, free=8, resize=5, core=1),
    "membig": lambda depth=200, **k: mem(depth, sizes=(0, 100, 32000, 32728, 32729, 65000, 70000, 200000, 1000000), get=6, free=6, resize=6, fresh=1, core=1),
    "memrec": lambda depth=500, **k: mem(depth, newmgr=2, freemgr=1, new=20, get=1, free=1, recs=k.pop("recs", (1, 7, 8, 9, 16, 24, 100, 500, 1500)), **{"del": 12}),
}


XEXPR = ["def", "null", "one", "zero", "vid", "vidx", "id", "cid", "not", "cnot", "tilde", "reg", "creg", "if", "then", "else", "cif", "cthen", "celse", "and", "or", "xor", "nand", "nor", "xnor", "diff",
         "cand", "cor", "cxor", "cnand", "cnor", "cxnor", "opand", "opor", "opxor", "opdiff", "chain", "ite", "cite", "comp", "ccomp", "swap", "cswap", "inter", "cinter", "impl", "cimpl",
         "sat", "csat", "sats", "csats", "cof", "ccof", "red", "cred", "btw", "ex", "all", "rp", "sub", "vsub", "vec"]
XPASS = ["copy", "copy", "copy", "move", "move", "vec", "id", "not", "reg", "def"]
XQ = ["isone", "iszero", "isnull", "isconst", "cisone", "ciszero", "cisnull", "cisconst", "cube", "ccube", "eq", "neq", "iseq", "ceq", "dep", "cdep", "ifid", "ifidx", "type", "cifid", "cifidx",
      "size", "sizem", "frac", "prof", "profm", "profc", "fprof", "fprofm", "vars", "nodes", "rc", "rc", "pprof", "pfprof", "pprofm", "pfprofm"]


def obj(N=4, nv=3, depth=300, null=4, maxmgr=2, exprs=XEXPR, assigns=("copy", "copy", "move", "move", "andeq", "oreq", "xoreq", "diffeq", "and", "or", "xor", "not", "ite", "chain", "vec", "vid", "reg", "cof", "def", "null"),
        queries=XQ, techs=((0, 0),), limits=(0,), **w):
    kinds = []
    for k, n in w.items():
        kinds += [k] * n
    return {"depth": depth, "N": N, "nv": nv, "nullpct": null, "maxmgr": maxmgr, "exprs": list(exprs), "assigns": list(assigns), "queries": list(queries), "techs": [list(t) for t in techs], "limits": list(limits), "kinds": kinds}


OBJ = {
    "objects": lambda depth=300, **k: obj(depth=depth, techs=TECHS, xo=16, xa=12, xself=2, xdel=9, xmw=2, xpw=2, xas=2, xq=3, xpr=1, xgc=2, xreorder=1, xdyn=1, xmovecal=1, xvar=1, xinit=1, xquit=1, switch=2, xcross=1, **k),
    "passing": lambda depth=400, **k: obj(depth=depth, exprs=XPASS, assigns=["copy", "copy", "copy", "move", "move", "vec", "def"], queries=["rc", "isnull", "cisnull", "eq"], xo=20, xa=20, xself=4, xdel=16, xpw=1, xmw=1, xq=4, xgc=1, xinit=1, xquit=1, switch=2, xcross=4, xmovecal=1, **k),
    "results": lambda depth=300, **k: obj(depth=depth, xo=14, xa=4, xmw=8, xpw=8, xas=6, xdel=16, xq=2, xgc=2, **k),
    "queries": lambda depth=300, **k: obj(depth=depth, techs=TECHS, xo=8, xa=2, xdel=5, xq=24, xpr=2, xgc=1, xreorder=1, xdyn=1, xvar=1, **k),
    "limits": lambda depth=300, **k: obj(depth=depth, null=10, limits=(0, 8, 12, 16, 20, 30, 1, -5), xo=16, xa=12, xself=1, xdel=9, xmw=3, xpw=3, xas=1, xlimit=5, xgc=1, **k),
}
