"""What each check runs.

Every property has its own mix: behaviours generated by TLC from the
specification under a profile that favours the calls the property is about,
exhaustive sweeps over all functions of three variables where the property is
about single calls, directed families for regimes random histories rarely
reach, and - for breadth - histories over everything.  Several builds of the
library take part: `stock` (constants as shipped), `scaled` (small pages, early
collections: hook CAL_VERIF_TUNING), `bf`/`df` (always breadth-first / always
depth-first, collections at every opportunity) and `asan`."""
import calcheck as C, families as F, profiles as P

BOOLS = ["and", "or", "xor", "nand", "nor", "xnor", "ite"]
V = ["scaled", "bf", "df", "stock", "asan"]


class Plan:
    def __init__(self, prop, tier, seed):
        self.prop, self.deep, self.base = prop, tier == "thorough", seed
        self.out = []
        self.rep = 0

    @property
    def s(self):
        return self.base * 997 + self.rep * 131 + 7 * int(self.prop[1:])

    def gen(self, profile, variants="scaled", num=8, N=(None,), **kw):
        for i, v in enumerate(variants.split()):
            n = N[(self.rep + i) % len(N)]
            k = dict(kw)
            if n is not None:
                k["N"] = n
            pr = P.PROFILES[profile](**k)
            self.out.append({"kind": "gen", "name": "%s-%s-r%d" % (profile, v, self.rep), "profile": pr, "seed": self.s + i, "num": num, "variant": v, "cost": num * 1.0})

    def mem(self, profile, variants="stock", num=10, **kw):
        for i, v in enumerate(variants.split()):
            self.out.append({"kind": "gen", "name": "%s-%s-r%d" % (profile, v, self.rep), "profile": P.MEM[profile](**kw), "seed": self.s + i, "num": num, "variant": v,
                             "gen": "GenMem", "lines": C.mem_lines, "module": "TraceMem", "cost": num})

    def files(self, variants, num, depth=400):
        for i, v in enumerate(variants.split()):
            self.out.append({"kind": "gen", "name": "forge-%s-r%d" % (v, self.rep), "profile": {"depth": depth, "N": 4}, "seed": self.s + i, "num": num, "variant": v,
                             "gen": "GenFile", "lines": C.file_lines, "module": "TraceCal", "cost": num * 2})

    def obj(self, profile, variants="scaled", num=6, **kw):
        for i, v in enumerate(variants.split()):
            pr = P.OBJ[profile](**kw)
            self.out.append({"kind": "gen", "name": "%s-%s-r%d" % (profile, v, self.rep), "profile": pr, "seed": self.s + i, "num": num, "variant": v,
                             "gen": "GenObj", "lines": lambda b, N, nv=pr["nv"]: C.obj_lines(b, N, nv), "module": "TraceObj", "cost": num})

    def fam(self, f, variants="scaled", *args, **kw):
        cost = kw.pop("cost", 8)
        module = kw.pop("module", "TraceCal")
        fn = getattr(F, f)
        for i, v in enumerate(variants.split()):
            self.out.append({"kind": "fam", "name": "%s-%s-r%d" % (f, v, self.rep), "lines": fn(self.s + 17 * i, *args, **kw), "variant": v, "cost": cost, "module": module})

    def mc(self, module, cfg, **kw):
        if self.rep == 0:
            self.out.append(dict({"kind": "mc", "name": "mc-" + cfg, "module": module, "cfg": cfg, "cost": 20}, **kw))


def c01(p):
    p.fam("rows_bool", "scaled", BOOLS, 256 if p.deep and p.rep < 2 else 12, cost=12)
    p.fam("rows_bool", "bf df", BOOLS, 6)
    p.gen("bool", "scaled bf df stock asan", 6, N=(4, 5, 4))
    p.fam("arrays", "scaled stock", 24, sizes=(2, 5, 20))
    p.fam("arrays", "asan", 5, sizes=(2, 110, 1030), N=4)
    p.fam("stock", "stock", 500)
    p.gen("all", "scaled", 5)
    p.mc("MCBool", "MCBool6.cfg" if p.deep else "MCBool.cfg")
    p.fam("revisit", "stock bf", 60)
    p.fam("sparse", "scaled", 120)


def c02(p):
    p.gen("canon", "scaled bf df stock asan scaled", 7, N=(4, 5, 3))
    p.gen("reorder", "scaled", 4)
    p.gen("all", "scaled bf", 6)
    p.fam("rows_bool", "df", BOOLS, 6)
    p.fam("stock", "stock", 400, reorder=1)
    p.fam("reorders", "scaled", 15)
    p.fam("wide", "stock", 80, 100)
    p.fam("deep", "scaled", 20)
    p.fam("sparse", "scaled df", 150)
    p.fam("bulk", "scaled df", 10)
    p.fam("revisit", "stock", 60)
    p.mc("CalNodes", "CalNodesDeep.cfg" if p.deep else "CalNodes.cfg", workers=3)


def c03(p):
    p.gen("gc", "scaled bf df asan stock scaled", 7, N=(4, 5, 6))
    p.gen("nogc", "scaled", 5)
    p.fam("nogc", "scaled bf", 250)
    p.fam("soak", "scaled bf df", 240, 1200)
    p.fam("bulk", "scaled asan", 10)
    p.fam("stock", "stock", 600)
    p.fam("saturate", "scaled", 120)
    p.gen("assoc", "scaled", 4)
    p.gen("all", "scaled bf", 5)
    p.gen("pipe", "scaled", 4)
    p.fam("revisit", "scaled bf df stock", 80)
    p.fam("assocreuse", "scaled", 40)
    if p.deep:
        p.mc("CalNodes", "CalNodesSim.cfg", extra=["-simulate", "num=60", "-depth", "30"], simulate=True, workers=3)


def c04(p):
    p.gen("refs", "scaled bf df asan stock scaled", 8, N=(3, 4, 3))
    p.fam("saturate", "scaled bf stock", 160)
    p.gen("all", "scaled df", 6)
    p.gen("witness", "scaled", 4)
    p.gen("files", "scaled", 4)
    p.gen("limit", "scaled", 4)
    p.fam("sparse", "scaled", 150)
    p.fam("revisit", "scaled", 60)


def c05(p):
    p.gen("reorder", "scaled bf df asan stock scaled", 6, N=(5, 4, 6))
    p.fam("reorders", "scaled bf df stock", 20)
    p.fam("bulk", "df scaled asan stockasan bf stock", 10)
    p.fam("stock", "stock", 400, reorder=1)
    p.fam("saturate", "scaled", 100)
    p.fam("satdrop", "scaled df", 8)
    p.gen("assoc", "scaled", 4)
    p.gen("all", "scaled bf", 5)
    p.fam("sparse", "scaled bf", 150)
    p.gen("assocwide", "scaled", 3)


def c06(p):
    p.mc("CalBlocks", "CalBlocksDeep.cfg" if p.deep else "CalBlocks.cfg", workers=3)
    if p.deep:
        p.mc("CalBlocks", "CalBlocksNest.cfg", workers=3)
    p.gen("block", "scaled bf df asan stock", 7, N=(6, 5, 6))
    p.gen("block", "scaled", 7, nv=6)
    p.fam("blocks", "scaled bf stock", 10)
    p.gen("reorder", "scaled", 3)


def c07(p):
    p.gen("newvar", "scaled bf df asan stock scaled", 8, N=(6, 5, 6))
    p.gen("block", "scaled", 4)
    p.fam("wide", "stock", 300 if not p.deep else 300 + 150 * (p.rep % 8), 120)
    p.fam("wide", "scaled", 40, 150)
    p.gen("assoc", "scaled", 4, nv=1)
    p.gen("managers", "scaled", 3)
    p.fam("grow", "scaled bf df stock stockasan")
    p.fam("sparse", "scaled bf", 200)
    p.gen("assocwide", "scaled bf", 4)


def c08(p):
    p.mc("CalAssoc", "CalAssocDeep.cfg" if p.deep else "CalAssoc.cfg", workers=3)
    p.gen("assoc", "scaled bf df asan stock scaled", 8, N=(4, 5, 4))
    p.gen("gc", "scaled", 4)
    p.gen("quant", "scaled", 4)
    p.fam("reorders", "scaled", 12)
    p.gen("all", "scaled bf", 5)
    p.fam("tempwrap", "stock")
    p.fam("grow", "scaled bf stock asan")
    p.fam("assocreuse", "scaled bf df stock", 60)
    p.fam("sparse", "scaled df", 200)
    p.gen("assocwide", "scaled bf", 4)
    p.fam("manyassoc", "scaled")


def c09(p):
    p.fam("rows_quant", "scaled bf df", 96 if p.deep and p.rep < 3 else 10)
    p.gen("quant", "scaled bf df asan stock", 7, N=(4, 5, 4))
    p.fam("tempwrap", "stock")
    p.gen("assoc", "scaled", 4)
    p.gen("all", "bf", 4)
    p.fam("stock", "stock", 300)
    p.fam("grow", "scaled bf")
    p.fam("assocreuse", "scaled bf df stock", 60)
    p.fam("revisit", "bf stock", 60)
    p.fam("sparse", "scaled", 150)
    p.fam("manyassoc", "scaled stock")


def c10(p):
    p.fam("rows_subst", "scaled bf df", 120 if p.deep and p.rep < 3 else 14)
    p.gen("subst", "scaled bf df asan stock", 7, N=(4, 5, 4))
    p.gen("assoc", "scaled", 4)
    p.gen("all", "bf", 4)
    p.fam("stock", "stock", 300)
    p.fam("grow", "scaled bf")
    p.fam("assocreuse", "scaled bf stock", 60)
    p.fam("sparse", "scaled df", 150)
    p.fam("bulk", "scaled df", 10)
    p.gen("assocwide", "scaled", 4)
    p.fam("manyassoc", "stock")
    p.fam("revisit", "scaled bf", 60)


def c11(p):
    p.fam("rows_pairs", "scaled bf", ["cof", "red", "btw"], 256 if p.deep and p.rep < 2 else 20)
    p.gen("care", "scaled bf df asan stock", 7, N=(4, 5, 4))
    p.gen("all", "scaled", 4)
    p.gen("limit", "scaled", 3)
    p.fam("stock", "stock", 300)
    p.fam("sparse", "scaled", 150)


def c12(p):
    p.fam("rows_witness", "scaled", 40 if p.deep else 8)
    p.fam("rows_pairs", "scaled", ["inter", "impl"], 256 if p.deep and p.rep < 2 else 16)
    p.gen("witness", "scaled bf df asan stock", 7, N=(4, 5, 4))
    p.gen("assoc", "scaled", 4)
    p.gen("all", "scaled", 4)
    p.fam("wide", "stock", 60, 60)
    p.fam("deep", "scaled stock df", 25)
    p.fam("deep", "scaled", 20, nv=20)


def c13(p):
    p.mc("CalPipe", "CalPipeDeep.cfg" if p.deep else "CalPipe.cfg", workers=3)
    p.gen("pipe", "scaled bf df asan stock scaled", 7, N=(4, 5, 4))
    p.fam("pipes", "scaled bf df asan stock", 12)
    p.fam("deeppipe", "scaled df asan")
    p.fam("pipegc", "scaled asan bf df", 10)
    p.gen("all", "scaled bf", 5)
    p.gen("limit", "scaled", 4)
    p.fam("grow", "scaled asan stockasan")
    p.fam("sparse", "scaled", 150)


def c14(p):
    p.mc("CalFile", "CalFileDeep.cfg" if p.deep else "CalFile.cfg", workers=3)
    p.mc("CalFile", "CalFileSharedDeep.cfg" if p.deep else "CalFileShared.cfg", workers=3)
    p.mc("CalFile", "CalFileHostileDeep.cfg" if p.deep else "CalFileHostile.cfg", workers=3)
    p.files("asan scaled", 8)
    p.gen("files", "scaled asan stock df", 7, N=(4, 5, 4))
    p.fam("damage", "asan", 5 if not p.deep else 8, 2 if not p.deep else 12, cost=14)
    p.fam("damage", "asan", 2, 2, nv=40)
    p.fam("wide", "stock", 280, 30)
    p.fam("wide", "stockasan", 300, 10)
    p.gen("canon", "scaled", 3)
    p.gen("all", "scaled", 4)
    p.fam("fullfile", "stock")
    p.fam("dumpbad", "scaled asan", 40)
    p.fam("fullfile", "scaled", sizes=(254, 255, 256, 257, 258), n=3)


def c15(p):
    p.fam("rows_query", "scaled")
    p.gen("inspect", "scaled bf df asan stock scaled", 7, N=(4, 5, 4))
    p.gen("limit", "scaled", 3)
    p.gen("print", "scaled", 4)
    p.gen("all", "scaled bf", 5)
    p.fam("wide", "stock", 100, 100)
    p.fam("deep", "scaled stock df", 25)
    p.fam("sparse", "scaled", 150)


def c16(p):
    p.gen("limit", "scaled bf df asan stock scaled", 7, N=(5, 4, 6))
    p.fam("limits", "scaled bf df stock asan", 14)
    p.fam("arrays", "scaled", 14, sizes=(1, 2, 5))
    p.gen("all", "scaled", 4, null=10)
    p.gen("inspect", "scaled", 3, null=15)


def c17(p):
    p.gen("repeat", "scaled bf df stock asan", 6, N=(3, 4, 3))
    p.fam("repeats", "scaled bf df stock", 150)
    p.fam("tempwrap", "stock")
    p.gen("all", "scaled bf df stock", 5)
    p.gen("reorder", "df", 3)
    p.fam("assocreuse", "scaled bf df stock", 60)
    p.fam("revisit", "scaled bf df stock", 60)


def c18(p):
    for f in ("mem", "memblocks", "memsmall", "membig", "memrec"):
        p.mem(f, "stock")
    p.mem("mem", "scaled", recs=(1, 8, 9, 24, 100, 300))
    p.mem("memrec", "scaled", recs=(1, 7, 8, 9, 16, 24, 100, 300))
    p.mem("memblocks", "stockasan")
    p.mc("CalBuddy", "CalBuddyDeep.cfg" if p.deep else "CalBuddy.cfg", workers=3)


def c19(p):
    p.obj("objects", "scaled bf df asan stock")
    p.obj("passing", "scaled asan", nv=2)
    p.obj("results", "scaled asan stock", nv=4)
    p.obj("queries", "scaled stock", nv=4)
    p.obj("limits", "scaled asan", nv=4)
    p.fam("xmany", "scaled stockasan", module="TraceObj", cost=40)
    p.fam("xshort", "scaled bf df asan stock", module="TraceObj")


def c20(p):
    p.gen("managers", "scaled bf df asan stock scaled", 6, N=(4, 5, 4))
    p.fam("fleets", "scaled asan stock", 200)
    p.gen("files", "scaled", 5)
    p.gen("all", "scaled", 4)
    p.fam("wide", "stockasan", 300, 20)
    p.fam("stock", "stock", 300)
    p.fam("grow", "stockasan scaled")
    p.gen("reorder", "scaled", 4)
    p.fam("bulk", "scaled", 10)
    p.gen("pipe", "scaled", 3)


def c21(p):
    p.fam("rows_print", "scaled", 128 if p.deep and p.rep < 3 else 40)
    p.gen("print", "scaled bf df asan stock", 7, N=(4, 5, 4))
    p.gen("inspect", "scaled", 4)
    p.gen("all", "scaled", 4)
    p.fam("deep", "scaled", 20)
    p.fam("sparse", "scaled", 120)


TABLE = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "c" and n[1:].isdigit()}


def tasks(prop, tier, seed):
    p = Plan(prop, tier, seed)
    for r in range(14 if p.deep else 1):
        p.rep = r
        TABLE[prop](p)
    return p.out
