"""Directed families of calls.  A family is a function that returns script
lines; what the calls should answer is decided by the specification alone."""
import itertools, random


def fin(m=0):
    return ["pq", "gc", "snap", "freeall", "gc", "snap", "mquit"]


def all3(perm=(0, 1, 2), name="all3"):
    """Slots 1..256: every function of three variables (slot = 1 + truth table);
    1000+k: coordinate k; order of the variables: perm, top first."""
    L = ["reset " + name, "minit 0 3"]
    for k in perm:
        L.append("var %d c%d last" % (1000 + k, k))
    L += ["const 1 0", "const 256 1"]
    have = {0: 1, 255: 256}
    basis = [0b10101010, 0b11001100, 0b11110000]
    dom = [0, 255]
    for k in range(3):
        new = []
        for hi in dom:
            for lo in dom:
                t = (basis[k] & hi) | (~basis[k] & 255 & lo)
                if t not in have:
                    have[t] = 1 + t
                    L.append("op ite %d %d %d %d" % (1 + t, 1000 + k, have[hi], have[lo]))
                if t not in new:
                    new.append(t)
        dom = new
    assert len(have) == 256
    return L


PERMS = list(itertools.permutations(range(3)))


def rows_bool(seed, ops, count, perms=1, reorder=True):
    r = random.Random(seed)
    L = []
    for p in range(perms):
        L += all3(PERMS[(seed + p) % 6], "rows%d" % p)
        A = r.sample(range(1, 257), min(count, 256))
        for i, a in enumerate(A):
            for f in ops:
                L.append("row %s %d 256" % (f, a) if f not in ("ite",) else "row ite %d 256 %d" % (a, r.randint(1, 256)))
            if i % 8 == 7:
                L.append("gc")
            if reorder and i == count // 2:
                L += ["dyn %d %d" % r.choice([(1, 0), (2, 0), (1, 1), (2, 1)]), "reorder", "snap"]
        L += fin()
    return L


VARS = (1000, 1001, 1002)
SUBSETS = [s for n in range(4) for s in itertools.combinations(VARS, n)]
DYN = ["dyn 1 0", "dyn 2 0", "dyn 1 1", "dyn 2 1"]


def stir(r, i, every=9):
    """Now and then a collection or a reordering between two rows."""
    if i % every != every - 1:
        return []
    return r.choice([["gc"], ["snap"], [r.choice(DYN), "reorder", "dyn 0 0"], ["gc", "snap"]])


def rows_quant(seed, count):
    r = random.Random(seed)
    L = all3(PERMS[seed % 6], "rowsquant")
    i = 0
    for s in SUBSETS:
        a = " ".join(map(str, s))
        if r.random() < .5:
            L += ["tinit 0 " + a, "aset -1"]
        else:
            L += ["ainit 1 0 " + a, "aset 1", "aquit 1"] if r.random() < .2 else ["ainit %d 0 %s" % (10 + i, a), "aset %d" % (10 + i)]
        L += ["row ex 0 256", "row all 0 256"]
        for x in r.sample(range(1, 257), max(1, count // 8)):
            L.append("row rp %d 256" % x)
            L += stir(r, i)
            i += 1
    return L + fin()


def rows_subst(seed, count):
    r = random.Random(seed)
    L = all3(PERMS[seed % 6], "rowssubst")
    for i in range(count):
        k = r.randint(0, 3)
        vs = r.sample(VARS, k)
        ws = [r.randint(1, 256) for _ in vs] if r.random() < .6 else [r.choice(VARS) for _ in vs]
        a = " ".join("%d %d" % p for p in zip(vs, ws))
        if r.random() < .5:
            L += ["tinit 1 " + a, "aset -1"]
            if r.random() < .3:
                L.append("taug 1 %d %d" % (r.choice(VARS), r.choice(VARS)))
                if not all(w in VARS for w in ws):
                    ws = [1]
        else:
            L += ["ainit %d 1 %s" % (10 + i, a), "aset %d" % (10 + i)]
        L.append("row sub 0 256")
        if all(w in VARS for w in ws):
            L.append("row vsub 0 256")
        L.append("row comp %d 256 %d" % (r.choice(VARS), r.randint(1, 256)))
        L.append("row swap %d 256 %d" % (r.choice(VARS), r.choice(VARS)))
        L += stir(r, i)
    return L + fin()


def rows_pairs(seed, ops, count):
    """NAME(A, j) for sampled A and every j."""
    r = random.Random(seed)
    L = all3(PERMS[seed % 6], "rowspairs")
    for i, a in enumerate(r.sample(range(1, 257), min(256, count))):
        for f in ops:
            L.append("row %s %d 256" % (f, a))
        L += stir(r, i)
    return L + fin()


def rows_witness(seed, count):
    r = random.Random(seed)
    L = all3(PERMS[seed % 6], "rowswit")
    L.append("row sat 0 256")
    for i, s in enumerate(SUBSETS):
        L += ["tinit 0 " + " ".join(map(str, s)), "aset -1", "row sats 0 256"] + stir(r, i, 4)
    L += ["qrow cube 256", "qrow frac 256"]
    for i, a in enumerate(r.sample(range(1, 257), min(256, count))):
        L += ["row inter %d 256" % a, "row impl %d 256" % a] + stir(r, i)
    return L + fin()


def bar(r):
    """Naming function and, sometimes, a line length for a printed profile."""
    return r.randint(0, 1) + 2 * r.choice([0, 0, 1, 10, 25, 30, 33, 40, 60, 200])


def rows_query(seed):
    r = random.Random(seed)
    L = []
    for p in PERMS:
        L += all3(p, "rowsq")
        L += ["qrow size 256 0", "qrow size 256 1", "qrow type 256", "qrow cube 256", "qrow frac 256"] + ["qrow dep 256 %d" % v for v in VARS]
        for _ in range(25):
            a = " ".join(str(r.randint(1, 256)) for _ in range(r.randint(1, 5)))
            L += ["q sizem %d %s" % (r.randint(0, 1), a), "q profm %d %s" % (r.randint(0, 1), a), "q fprofm " + a, "q pprofm %d %s" % (bar(r), a), "q pfprofm %d %s" % (bar(r), a)]
            s = r.randint(1, 256)
            L += ["q prof %d %d" % (s, r.randint(0, 1)), "q fprof %d" % s, "q supp %d" % s, "q walk %d" % r.randint(2, 256), "q ifid %d" % s, "q ifidx %d" % s]
        L += fin()
    return L


def rows_print(seed, count):
    r = random.Random(seed)
    L = []
    for p in r.sample(PERMS, 2):
        L += all3(p, "rowsp")
        for s in r.sample(range(1, 257), min(256, count)):
            L += ["pr %d %d" % (s, r.randint(0, 1)), "fpr %d" % s, "q pprof %d %d" % (s, bar(r)), "q pfprof %d %d" % (s, bar(r))]
        # crowds, whose bars have to be scaled down
        for _ in range(max(4, count // 10)):
            a = " ".join(str(r.randint(1, 256)) for _ in range(r.choice([15, 30, 60, 90])))
            L += ["q pprofm %d %s" % (bar(r), a), "q pfprofm %d %s" % (bar(r), a)]
        L += fin()
    return L


class H:
    """Random histories written directly: bookkeeping of slots only."""
    def __init__(self, seed, N, coords, name="hist", minit=True, m=0):
        self.r = random.Random(seed)
        self.L = (["reset " + name] if m == 0 else []) + ["minit %d %d" % (m, N)]
        self.N, self.ns, self.live, self.vars, self.names = N, 1, [], [], 0
        for k in coords:
            self.var("c%d last" % k)

    def new(self, n=1):
        d = self.ns
        self.ns += n
        return d

    def var(self, spec):
        d = self.new()
        self.L.append("var %d %s" % (d, spec))
        self.vars.append(d)
        return d

    def pick(self):
        return self.r.choice(self.live) if self.live and self.r.random() < .85 else self.r.choice(self.vars)

    def op(self, f, *a):
        d = self.new()
        self.L.append("op %s %d %s" % (f, d, " ".join(map(str, a))))
        self.live.append(d)
        return d

    def rnd(self):
        if self.r.random() < .05 and len(self.vars) > 1:
            return self.rich(5)
        f = self.r.choice(["and", "or", "xor", "xor", "nand", "nor", "xnor", "ite", "ite"])
        return self.op(f, *[self.pick() for _ in range(3 if f == "ite" else 2)])

    def rich(self, k=None):
        """A function that depends on most of k variables and is rarely regular."""
        vs = self.r.sample(self.vars, min(k or 6, len(self.vars)))
        s = vs[0]
        for i in range(len(vs) + 2):
            v, w = self.r.sample(vs, 2) if len(vs) > 1 else (vs[0], vs[0])
            s2 = self.new()
            self.add("op " + self.r.choice(["xor %d %d %d" % (s2, s, v), "ite %d %d %d %d" % (s2, v, s, w), "ite %d %d %d %d" % (s2, s, v, w), "ite %d %d %d %d" % (s2, v, w, s)] +
                     (["or %d %d %d" % (s2, s, v), "and %d %d %d" % (s2, s, v)] if i % 3 == 1 else [])))
            if s not in vs:
                self.add("free %d" % s)
            s = s2
        self.live.append(s)
        return s

    def free(self, n=1):
        for _ in range(n):
            if self.live:
                self.L.append("free %d" % self.live.pop(self.r.randrange(len(self.live))))

    def thin(self, keep):
        while len(self.live) > keep:
            self.free()

    def add(self, *l):
        self.L += l


def stock(seed, n, N=10, live=150, every=25, reorder=0, extra=0, name="stock"):
    """Histories large enough for the shipped constants: collections, growing
    tables, many pages, dynamic reordering."""
    h = H(seed, N, range(N), name)
    r = h.r
    h.add("every %d" % every)
    if reorder:
        h.add(r.choice(DYN))
    for i in range(n):
        x = r.random()
        if x < .75:
            h.rnd()
        elif x < .80:
            h.op("not", h.pick())
        elif x < .84:
            vs = r.sample(h.vars, r.randint(0, 3))
            h.add("tinit 0 " + " ".join(map(str, vs)))
            h.op(r.choice(["ex", "all"]), h.pick())
            h.op("rp", h.pick(), h.pick())
        elif x < .87:
            h.op("comp", h.pick(), r.choice(h.vars), h.pick())
        elif x < .89:
            h.op("swap", h.pick(), *r.sample(h.vars, 2))
        elif x < .92:
            h.op(r.choice(["cof", "red", "btw", "inter", "impl"]), h.pick(), h.pick())
        elif x < .95:
            a = [h.pick() for _ in range(2 * r.randint(1, 6))]
            f = r.choice(["and", "or", "xor"])
            if r.random() < .5:
                d = h.new()
                h.add("mw %s %d %s" % (f, d, " ".join(map(str, a))))
                h.live.append(d)
            else:
                d = h.new(len(a) // 2)
                h.add("pw %s %d %s" % (f, d, " ".join(map(str, a))))
                h.live += range(d, d + len(a) // 2)
        elif x < .97:
            h.add("q size %d 1" % h.pick(), "q frac %d" % h.pick())
        elif reorder and x < .975:
            h.add("reorder")
        h.thin(live)
    h.add("every 1", "gc", "snap")
    h.thin(live // 4)
    h.add("gc", "snap", "reorder", "snap")
    return h.L + fin()


def nogc(seed, n, N=6, name="nogc"):
    """Phases with automatic collection off: nothing may be discarded."""
    h = H(seed, N, range(N), name)
    r = h.r
    for i in range(n):
        if i % 60 == 10:
            h.add("gcmode 0")
        if i % 60 == 55:
            h.add("gcmode 1", "gc", "snap")
        x = r.random()
        if x < .8:
            h.rnd()
        elif x < .85:
            h.op("comp", h.pick(), r.choice(h.vars), h.pick())
        elif x < .9:
            h.add("tinit 0 %d" % r.choice(h.vars))
            h.op("ex", h.pick())
        elif x < .95:
            d = h.new(2)
            h.add("pw and %d %s" % (d, " ".join(str(h.pick()) for _ in range(4))))
            h.live += [d, d + 1]
        else:
            h.op(r.choice(["cof", "inter", "red"]), h.pick(), h.pick())
        h.thin(6)
    return h.L + fin()


def arrays(seed, n, N=6, sizes=(2, 7, 40, 300), pwmax=120, name="arrays"):
    """Long operand arrays for the pairwise and multiway operations."""
    h = H(seed, N, range(N), name)
    r = h.r
    for _ in range(40):
        h.rnd()
    for i in range(n):
        k = r.choice(sizes)
        a = [h.pick() for _ in range(2 * k)]
        f = r.choice(["and", "or", "xor"])
        if r.random() < .5 or k > pwmax:
            d = h.new()
            h.add("mw %s %d %s" % (f, d, " ".join(map(str, a))))
            h.live.append(d)
        else:
            d = h.new(k)
            h.add("pw %s %d %s" % (f, d, " ".join(map(str, a))))
            if r.random() < .5:
                h.add("free " + " ".join(str(x) for x in range(d, d + k)))
            else:
                h.live += range(d, d + k)
        h.rnd()
        h.thin(60)
        if i % 7 == 3:
            h.add(r.choice(["gc", "snap"]))
        if i % 11 == 5:
            h.add(r.choice(DYN), "reorder")
    return h.L + fin()


def saturate(seed, n, name="saturate"):
    """Reference counts around the point where they stick."""
    h = H(seed, 4, range(4), name)
    r = h.r
    for _ in range(12):
        h.rnd()
    for i in range(n):
        s = h.pick()
        x = r.random()
        if x < .3:
            h.add("unfree %d %d" % (s, r.choice([1, 2, 10, 100, 255, 256, 300, 600])))
        elif x < .5:
            for _ in range(r.choice([1, 3, 30])):
                h.op("id", s)
        elif x < .6:
            h.thin(r.choice([2, 5, 20]))
        elif x < .7:
            h.add("gc", "snap")
        elif x < .75:
            h.add(r.choice(DYN), "reorder", "dyn 0 0")
        elif x < .8:
            h.add("q rc %d" % s)
        else:
            h.rnd()
    return h.L + fin()


def satdrop(seed, n, N=6, name="satdrop"):
    """Functions whose count has stuck are given up; their nodes stay while the
    variables move, and are met again later."""
    L = []
    r0 = random.Random(seed)
    for j in range(n):
        h = H(r0.random(), N, range(N), "%s%d" % (name, j))
        r = h.r
        half = N // 2
        made = []
        for _ in range(r.randint(1, 3)):
            a, b, c = r.sample(h.vars, 3)
            f = r.choice(["and", "or", "xor"])
            k = r.random() < .4
            d = h.op(f, a, b)
            if k:
                d = h.op("ite", d, c, a)
            made.append((f, a, b, c, k))
            h.add("unfree %d 300" % d, "free %d" % d)
            h.live = [x for x in h.live if x != d]
            if r.random() < .5:
                h.add("gc")
        for _ in range(4):
            s = h.op("and", h.vars[0], h.vars[half])
            for i in range(1, half):
                if r.random() < .6:
                    s = h.op("or", s, h.op("and", h.vars[i], h.vars[half + r.randint(0, half - 1)]))
            h.add(r.choice(DYN), "reorder", "snap")
            for f, a, b, c, k in made:
                if r.random() < .5:
                    d = h.op(f, a, b)
                    if k:
                        d = h.op("ite", d, c, a)
            if r.random() < .5:
                h.rnd()
            h.thin(4)
            if r.random() < .5:
                h.add("gc", "snap")
        L += h.L + fin()
    return L


def wide(seed, nv, n, N=8, name="wide", files=True):
    """Managers with many variables (array growth, two-byte indices); functions
    are checked on a sample of points."""
    h = H(seed, N, range(N), name)
    r = h.r
    h.add("vars %d %d 0" % (nv - N, seed * 1000))
    top = nv
    for i in range(n):
        x = r.random()
        if x < .15 and top < nv + 60:
            k = r.choice(["first", "last", "before %d" % r.choice(h.vars), "after %d" % r.choice(h.vars)])
            h.var("m%d/0 %s" % (seed * 7919 + i, k))
            top += 1
        elif x < .35:
            d = h.new()
            if r.random() < .5:
                h.add("vid %d %d" % (d, r.randint(1, top)))
            else:
                h.add("vidx %d %d" % (d, r.randint(0, top - 1)))
            h.vars.append(d)
        elif x < .8:
            h.rnd()
        elif x < .84:
            h.add("tinit 0 " + " ".join(str(v) for v in r.sample(h.vars, 3)))
            h.op(r.choice(["ex", "all"]), h.pick())
        elif x < .87:
            h.op("comp", h.pick(), r.choice(h.vars), h.pick())
        elif x < .89:
            h.op(r.choice(["cof", "red", "btw", "sat", "inter", "impl"]), h.pick(), h.pick()) if False else h.op("inter", h.pick(), h.pick())
        elif x < .92:
            h.add("q supp %d" % h.pick(), "q vars")
        elif x < .94:
            h.add(r.choice(DYN), "reorder", "dyn 0 0")
        elif x < .96:
            h.add("gc", "snap")
        h.thin(40)
    if files:
        ids = h.new(top)
        for i in range(top):
            h.add("vid %d %d" % (ids + i, i + 1))
        vs = " ".join(str(ids + i) for i in range(top))
        for i in range(6):
            s, d = r.choice(h.live or h.vars), h.new()
            h.add("dump w%d %d %s" % (i, s, vs), "undump w%d %d %s" % (i, d, vs))
        h.add("gc", "snap")
    return h.L + fin()


def sparse(seed, n, N=6, start=None, steps=(1, 2, 3, 9, 29), name="sparse"):
    """Functions of a few variables in managers with many: associations,
    quantification, substitution and reordering while tables sized by the
    number of variables grow, with the functions checked exactly."""
    r0 = random.Random(seed * 31)
    h = H(seed, N, [], name)
    r = h.r
    total, coord = 0, 0

    def more(k):
        nonlocal total
        p = r.choice(["first", "last", "before", "after"]) if h.vars else "last"
        h.add("idle %d %s%s" % (k, p, " %d" % r.choice(h.vars) if p in ("before", "after") else ""))
        total += k

    def track():
        nonlocal total, coord
        p = r.choice(["first", "last", "last", "before", "after"]) if h.vars else "last"
        h.var("c%d %s%s" % (coord, p, " %d" % r.choice(h.vars) if p in ("before", "after") else ""))
        coord += 1
        total += 1

    def assoc():
        pr = r.random() < .6
        vs = r.sample(h.vars, r.randint(0, min(3, len(h.vars))))
        if h.vars[-1] not in vs and r.random() < .5:
            vs.append(h.vars[-1])
        a = " ".join("%d %d" % (v, h.pick()) if pr else str(v) for v in vs)
        x = r.random()
        if x < .4:
            h.add("tinit %d %s" % (pr, a), "aset -1")
        elif x < .5:
            h.add("taug %d %s" % (pr, a))
        else:
            h.names += 1
            h.add("ainit %d %d %s" % (h.names, pr, a), "aset %d" % h.names)

    first = start if start is not None else r.choice([0, 20, 24, 25, 27, 56])
    if first:
        more(first)
    track()
    track()
    for i in range(n):
        x = r.random()
        if x < .30:
            h.rnd()
        elif x < .40:
            assoc()
        elif x < .62:
            if r.random() < .3 and h.names:
                h.add("aset %d" % r.choice([-1] + list(range(1, h.names + 1))))
            f = r.choice(["ex", "all", "rp", "sub", "ex", "rp", "sub"])
            h.op(f, *[h.pick() for _ in range(2 if f == "rp" else 1)])
        elif x < .66:
            h.op("comp", h.pick(), r.choice(h.vars), h.pick())
        elif x < .68:
            h.op("swap", h.pick(), r.choice(h.vars), r.choice(h.vars))
        elif x < .72:
            h.op(r.choice(["cof", "red", "btw", "inter", "impl"]), h.pick(), h.pick())
        elif x < .76:
            h.add(r.choice(["q frac %d", "q supp %d", "q size %d 1", "q ifidx %d", "q fprof %d", "q prof %d 0", "pr %d 0"]) % h.pick())
        elif x < .80:
            if coord < N:
                track()
        elif x < .86:
            if total < 140:
                more(r.choice(steps))
        elif x < .88 and h.names:
            h.add("aquit %d" % r.randint(1, h.names))
        elif x < .90:
            h.add(r.choice(DYN), "reorder", "dyn 0 0")
        elif x < .93:
            h.add(r.choice(["gc", "snap"]))
        elif x < .95:
            k = r.randint(2, 4)
            d = h.new(k)
            h.add("pi xor")
            for j in range(k):
                h.add("pc %d %d %d" % (d + j, h.pick(), h.pick()))
            h.add("px")
            for j in range(k):
                e = h.new()
                h.add("pu %d %d" % (e, d + j))
                h.live.append(e)
            h.add("pq")
        elif x < .96:
            h.add("psetdepth %d" % r.choice([1, 3, 6]))
        elif x < .97:
            s, d = h.pick(), h.new()
            vs = h.vars[:]
            r.shuffle(vs)
            a = " ".join(map(str, vs))
            h.add("dump s%d %d %s" % (i, s, a), "undump s%d %d %s" % (i, d, a))
        h.thin(25)
    return h.L + fin()


def grow(seed, N=5, limits=(30, 60, 120), rounds=2, name="grow"):
    """Exactly full tables of variables, grown while associations, the
    temporary association, a raised pipeline depth and held functions exist."""
    L = []
    for rd in range(rounds):
        h = H(seed * 17 + rd, N, [], name + str(rd))
        r = h.r
        total, coord = 0, 0

        def use(ids):
            for k in ids:
                h.add("aset %d" % k)
                for _ in range(2):
                    f = r.choice(["ex", "all", "rp", "sub", "sats", "ex"])
                    h.op(f, *[h.pick() for _ in range(2 if f == "rp" else 1)])
            h.op("comp", h.pick(), r.choice(h.vars), h.pick())
            h.op("swap", h.pick(), r.choice(h.vars), h.vars[-1])

        if r.random() < .5:
            h.add("psetdepth %d" % r.choice([2, 6]))
        h.var("c0 last")
        h.var("c1 last")
        total = coord = 2
        for b in r.sample(limits, r.randint(1, len(limits))) if r.random() < .5 else limits:
            if total > b - 2:
                continue
            track = r.random() < .8 and coord < N
            k = b - total - (1 if track else 0)
            h.add("idle %d %s" % (k, r.choice(["first", "last", "before %d" % r.choice(h.vars), "after %d" % r.choice(h.vars)])))
            if track:
                h.var("c%d %s" % (coord, r.choice(["first", "last", "after %d" % r.choice(h.vars)])))
                coord += 1
            total = b
            for _ in range(4):
                h.rnd()
            ids = [-1]
            for _ in range(3):
                pr = r.random() < .5
                vs = r.sample(h.vars[:-1], r.randint(0, min(2, len(h.vars) - 1))) + [h.vars[-1]]
                h.names += 1
                ids.append(h.names)
                h.add("ainit %d %d %s" % (h.names, pr, " ".join("%d %d" % (v, h.pick()) if pr else str(v) for v in vs)))
            h.add("tinit 0 %s" % h.vars[-1] if r.random() < .5 else "tinit 1 %d %d %d %d" % (h.vars[-1], h.pick(), h.vars[0], h.pick()))
            use(r.sample(ids, 2))
            if r.random() < .3:
                h.add("psetdepth %d" % r.choice([1, 4, 6]))
            grown = r.randint(1, 2)
            if r.random() < .4 and coord < N:
                h.var("c%d %s" % (coord, r.choice(["first", "last", "before %d" % r.choice(h.vars), "after %d" % r.choice(h.vars)])))
                coord += 1
            else:
                h.add("idle 1 %s" % r.choice(["first", "last", "before %d" % r.choice(h.vars), "after %d" % r.choice(h.vars)]))
            total += 1
            use(ids)
            if grown == 2:
                h.add("idle 1 %s" % r.choice(["first", "last"]))
                total += 1
            h.add("snap")
            if r.random() < .5:
                h.add(r.choice(DYN), "reorder", "dyn 0 0", "snap")
            d = h.new(2)
            h.add("pi and", "pc %d %d %d" % (d, h.pick(), h.pick()), "pc %d %d %d" % (d + 1, d, h.pick()), "px")
            e = h.new(2)
            h.add("pu %d %d" % (e, d), "pu %d %d" % (e + 1, d + 1), "pq")
            h.live += [e, e + 1]
            use(ids)
            h.add("gc", "snap")
            h.thin(10)
        L += h.L + fin()
    return L


def revisit(seed, n, N=7, name="revisit"):
    """Results given up and collected while their operands stay held, other
    functions built where they were, and the same calls made again."""
    h = H(seed, N, range(N), name)
    r = h.r
    base = [h.rich() for _ in range(15)] + [h.rnd() for _ in range(8)]
    h.live = []
    h.add("every 3")
    h.add("ainit 1 0 %d %d %d" % tuple(r.sample(h.vars, 3)), "ainit 2 1 %d %d %d %d" % (h.vars[1], r.choice(base), h.vars[3], r.choice(base)), "aset 1")
    cur = 1
    for i in range(n):
        if r.random() < .1:
            cur = r.choice([1, 2])
            h.add("aset %d" % cur)
        calls = []
        for _ in range(r.randint(1, 3)):
            f = r.choice(["rp", "rp", "ex", "and", "xor", "or", "ite", "sub", "comp", "swap", "cof", "red", "all", "btw"])
            a = [r.choice(base) for _ in range({"ite": 3, "ex": 1, "all": 1, "sub": 1}.get(f, 2))]
            if f == "comp":
                a = [a[0], r.choice(h.vars), a[1]]
            if f == "swap":
                a = [a[0]] + r.sample(h.vars, 2)
            calls.append((f, a))
        for f, a in calls:
            d = h.new()
            h.add("op %s %d %s" % (f, d, " ".join(map(str, a))), "free %d" % d)
        h.add(r.choice(["gc", "gc", "gc", "reorder"]) if r.random() < .9 else "snap")
        for _ in range(r.randint(1, 4)):
            f, a, d = r.choice(["and", "or", "xor", "ite"]), [r.choice(base) for _ in range(3)], h.new()
            h.add("op %s %d %s" % (f, d, " ".join(map(str, a[:3 if f == "ite" else 2]))))
            if r.random() < .5:
                h.add("free %d" % d)
            else:
                h.live.append(d)
        for f, a in calls:
            h.op(f, *a)
        h.thin(r.choice([0, 10]))
    return h.L + fin()


def fullfile(seed, sizes=(255, 256, 257), n=6, N=6, name="fullfile"):
    """Files over arrays of variables whose length sits at the edge of an index
    width, in any order of the array; the last entries matter to the function."""
    L = []
    for k, K in enumerate(sizes):
        h = H(seed * 5 + k, N, range(N), name + str(K))
        r = h.r
        h.add("vars %d %d 0" % (K - N, seed * 1000 + K))
        ids = h.new(K)
        h.add(*["vid %d %d" % (ids + i, i + 1) for i in range(K)])
        arr = list(range(ids, ids + K))
        h.vars = arr
        for i in range(n):
            x = r.random()
            if x < .4:
                arr = list(reversed(arr))
            elif x < .8:
                arr = r.sample(arr, K)
            a = " ".join(map(str, arr))
            h.vars = r.sample(arr[-4:-1], 2) + r.sample(arr[:-1], 3) + arr[:1]
            h.live = []
            for _ in range(r.randint(1, 6)):
                t = h.rnd()
            s = h.new(2)
            u, s = s, s + 1                # the last entry labels a node that is not a literal's
            h.add("op ite %d %d %d %d" % (u, h.vars[0], arr[-1], h.vars[1]), "op xor %d %d %d" % (s, u, t))
            if r.random() < .2:
                h.add(r.choice(DYN), "reorder", "dyn 0 0")
            d = h.new()
            h.add("dump f%d %d %s" % (i, s, a), "undump f%d %d %s" % (i, d, a))
            s, d = h.new(), h.new()        # a literal and its complement, at either end
            h.add("op not %d %d" % (s, arr[-1]), "dump g%d %d %s" % (i, s, a), "undump g%d %d %s" % (i, d, a))
        h.add("gc", "snap")
        L += h.L + fin()
    return L


def deep(seed, n, nv=44, N=6, big=120, name="deep"):
    """Functions of many variables: sizes, profiles, supports, fractions and
    witnesses decided on the diagrams themselves."""
    h = H(seed, N, range(N), name)
    r = h.r
    h.add("vars %d %d 0" % (nv - N, seed * 1000))
    ids = h.new(nv)
    h.add(*["vid %d %d" % (ids + i, i + 1) for i in range(nv)])
    allv = list(range(ids, ids + nv))
    h.vars = allv

    def const(v):
        d = h.new()
        h.add("const %d %d" % (d, v))
        return d
    zero, one = const(0), const(1)

    def symmetric(vs, count, want):      # "the number of true ones is in want"
        row = {}
        for k in range(count + 1):
            row[k] = one if k in want else zero
        for i in reversed(range(count)):
            row = {k: h.op("ite", vs[i], row[k + 1], row[k]) for k in range(i + 1)}
        return row[0]

    def chain(vs):
        s, fs = vs[0], r.choice([["and", "or"], ["and", "or", "nand", "nor"], ["and", "or", "xor", "nand", "ite"]])
        for v in vs[1:]:
            f = r.choice(fs)
            s = h.op(f, v, s, r.choice([one, zero, h.op("not", s)])) if f == "ite" else h.op(f, v, s)
        return s
    for i in range(n):
        h.live = []
        x = r.random()
        if x < .3:
            k = r.randint(4, 14)
            s = symmetric(r.sample(allv, k), k, set(r.sample(range(k + 1), r.randint(1, k))))
        elif x < .55:
            s = chain(r.sample(allv, r.randint(3, nv)))
        elif x < .7:
            s = h.op("xor", chain(r.sample(allv, 8)), chain(r.sample(allv, 8)))
        elif x < .8:
            k = r.randint(4, nv)
            s = symmetric(r.sample(allv, k), k, {0, k} if r.random() < .5 else {0}) if k < 10 else chain(r.sample(allv, k))
        else:
            h.vars = r.sample(allv, 9)
            for _ in range(10):
                s = h.rnd()
            h.vars = allv
        more = [x for x in [s] + r.sample(h.live, min(len(h.live), 2)) if x]
        h.add("diag %d" % s)
        if r.random() < .4:
            h.add("diag " + " ".join(map(str, more)))
        if r.random() < .5:
            h.add("opw sat %d %d" % (h.new(), s))
        if r.random() < .5:
            h.add("tinit 0 " + " ".join(map(str, r.sample(allv, r.randint(0, 6)))), "aset -1", "opw sats %d %d" % (h.new(), s))
        if x < .3 and r.random() < .5:
            h.add("pr %d %d" % (s, r.randint(0, 1)))
        if r.random() < .15:
            h.add(r.choice(DYN), "reorder", "dyn 0 0", "diag %d" % s)
        if r.random() < .1:
            h.add("gc")
        h.live = [x for x in h.live if x not in (one, zero)]
        h.thin(0)
    return h.L + fin()


def assocreuse(seed, n, N=5, name="assocreuse"):
    """Associations given up and others declared in their place (the identifier
    is handed out again), the same calls on the same functions under each."""
    h = H(seed, N, range(N), name)
    r = h.r
    base = [h.rich() for _ in range(6)] + [h.rnd() for _ in range(2)]
    h.live = []
    declared = {}

    def declare():
        pr = r.random() < .6
        vs = r.sample(h.vars, r.randint(0 if r.random() < .1 else 1, 3))
        h.names += 1
        if pr:
            kind = r.random()
            a = " ".join("%d %d" % (v, r.choice(h.vars) if kind < .4 else r.choice(base)) for v in vs)
        else:
            a = " ".join(map(str, vs))
        h.add("ainit %d %d %s" % (h.names, pr, a))
        declared[h.names] = pr and kind < .4
        return h.names

    for i in range(n):
        for _ in range(r.randint(1, 3)):
            declare()
        fs = r.sample(base, 2)
        for k in r.sample(list(declared), min(len(declared), 3)):
            h.add("aset %d" % k)
            for f in r.sample(["ex", "all", "rp", "sub"] + (["vsub"] if declared[k] else []), 3):
                for x in fs[:1 if r.random() < .5 else 2]:
                    d = h.new()
                    h.add("op %s %d %s" % (f, d, "%d %d" % tuple(fs) if f == "rp" else str(x)))
                    h.live.append(d)
        if r.random() < .3:
            h.add("gc")
        if r.random() < .1:
            h.add(r.choice(DYN), "reorder", "dyn 0 0")
        for k in r.sample(list(declared), r.randint(0, len(declared))):
            h.add("aquit %d" % k)
            del declared[k]
        if r.random() < .15:
            base[r.randrange(len(base))] = h.rich()
            h.live.pop()
        h.thin(r.choice([0, 6, 20]))
        # the identifier handed straight on, the same call right before and after
        h.names += 2
        f = r.choice(["ex", "all", "rp", "rp", "rp", "sub", "vsub"])
        x, y = r.sample(base, 2)
        pairs = []
        for v in r.sample(h.vars, 2):
            w = r.choice([u for u in h.vars if u != v])
            pairs.append("%d %d" % (v, w) if f in ("sub", "vsub") else str(v))
        d = h.new(2)
        for j in range(2):
            h.add("ainit %d %d %s" % (h.names - j, f in ("sub", "vsub"), pairs[j]), "aset %d" % (h.names - j),
                  "op %s %d %s" % (f, d + j, "%d %d" % (x, y) if f == "rp" else str(x)), "aquit %d" % (h.names - j))
        h.live += [d, d + 1]
        if i % 20 == 19:
            h.add("snap")
    return h.L + fin()


def tempwrap(seed, n=70000, step=400, name="tempwrap"):
    """More quantifications under the temporary association than there are
    cache codes for them: entries left by earlier ones (under other temporary
    and permanent associations) must not answer later ones.  Quantifying a
    constant uses a code and leaves no entry; one probe in `step` codes leaves
    the entries of `step` earlier ones in the cache."""
    h = H(seed, 4, range(4), name)
    r = h.r
    one = h.new()
    h.add("const %d 1" % one)
    f, g = h.new(2), h.ns - 1
    a, b = r.sample(h.vars[:2], 2)
    h.add("op and %d %d %d" % (f, h.vars[0], h.vars[1]), "op xor %d %d %d" % (g, f, h.vars[2]))
    fs = [h.rich() for _ in range(10)] + [h.rnd() for _ in range(14)]
    ids = range(step + 10)         # permanent associations with consecutive identifiers
    pairs = r.sample([(x, y) for x in fs for y in fs], len(ids))
    for k in ids:
        x, y = r.sample(h.vars, 2)
        h.add("ainit %d 1 %d %d %d %d" % (k, x, pairs[k][0], y, pairs[k][1]))
    for k in ids:
        d = h.new()
        h.add("aset %d" % k, "op ex %d %d" % (d, f), "free %d" % d)
    h.add("tinit 0 %d" % a, "aset -1", "spin %d %d ex" % (2 * step, f), "tinit 0 %d" % b)
    for i in range(n // step):
        d = h.new()
        h.add("spin %d %d ex" % (step - 1, one))
        h.op("ex", f)
        if i % 20 == 10:
            h.op("rp", f, g)
    for k in ids:
        d = h.new()
        h.add("aset %d" % k, "op ex %d %d" % (d, f), "free %d" % d)
    return h.L + fin()


def manyassoc(seed, fills=(4080, 12285, 4094), spin=28610, name="manyassoc"):
    """Thousands of associations: identifiers beyond every boundary at which
    the codes of one kind of result might run into those of another."""
    h = H(seed, 7, range(7), name)
    r = h.r
    one = h.new()
    h.add("const %d 1" % one)
    fs = [h.rich() for _ in range(4)]
    names = []

    def declare(k):
        for i in range(k):
            h.names += 1
            vs = [h.vars[4]] + r.sample(h.vars[:4] + h.vars[5:], r.randint(0, 2))
            kind = (i + seed) % 3
            h.add("ainit %d %d %s" % (h.names, kind > 0, " ".join(str(v) if kind == 0 else "%d %d" % (v, r.choice([u for u in h.vars if u != v]) if kind == 1 else h.pick()) for v in vs)))
            names.append((h.names, kind))

    def ask(some, todo=("ex", "sub", "rp", "vsub")):
        for k, kind in some:
            h.add("aset %d" % k)
            for f in todo:
                if f != "vsub" or kind == 1:
                    d = h.new()
                    h.add("op %s %d %s" % (f, d, "%d %d" % (fs[0], fs[1]) if f == "rp" else str(fs[r.randrange(2)])), "free %d" % d)
    declare(16)
    ask(names)
    for n in fills:
        h.add("afill %d" % n)
        declare(12)
        ask(names)
        r.shuffle(names)
        ask(names[:20], ("vsub", "ex"))
    h.add("tinit 0 %d" % h.vars[0], "aset -1", "spin %d %d ex" % (spin, one))
    for i in range(12):
        h.add("tinit 1 %d %d" % (h.vars[5], r.choice(h.vars[:4])), "aset -1")
        for _ in range(4):
            d = h.new()
            h.add("op %s %d %d" % (r.choice(["ex", "vsub"]), d, fs[r.randrange(2)]), "free %d" % d)
        ask(r.sample(names, 2), ("ex", "vsub"))
    ask(names)
    h.add("aset -1")
    return h.L + ["gc", "freeall", "gc", "mquit"]


def damage(seed, nfun, masks, name="damage", N=4, nv=0):
    """Every truncation and, for every byte, several changes, of dumped files."""
    h = H(seed, N, range(N), name)
    r = h.r
    if nv:
        h.add("vars %d %d 0" % (nv, seed))
    k = 0
    for i in range(nfun):
        for _ in range(1 + i * 3):
            s = h.rnd()
        vs = h.vars[:]
        r.shuffle(vs)
        a = " ".join(map(str, vs))
        h.add("dump f%d %d %s" % (i, s, a))
        size = 8 + 6 * (2 + 2 * i)
        for off in range(min(size, 40)):
            h.add("damage t%d f%d trunc %d" % (k, i, off), "undump t%d %d %s" % (k, h.new(), a))
            k += 1
            for m in r.sample(range(1, 256), masks):
                h.add("damage t%d f%d flip %d %d" % (k, i, off, m), "undump t%d %d %s" % (k, h.new(), a))
                k += 1
            h.add("damage t%d f%d put %d 255 255 255 255" % (k, i, off), "undump t%d %d %s" % (k, h.new(), a))
            k += 1
            if off % 10 == 9:
                h.add("gc")
        h.add("snap")
    return h.L + fin()


def blocks(seed, n, N=8, name="blocks"):
    """Nested and adjacent blocks over functions that want another order."""
    L = []
    r0 = random.Random(seed)
    for j in range(n):
        h = H(r0.random(), N, range(N), "%s%d" % (name, j))
        r = h.r
        # pairs far apart: the best order interleaves them
        half = N // 2
        s = h.op("and", h.vars[0], h.vars[half])
        for i in range(1, half):
            s = h.op("or", s, h.op("and", h.vars[i], h.vars[half + i]))
        b = 0
        spans = []
        for _ in range(r.randint(1, 4)):
            if spans and r.random() < .5:
                lo, hi = r.choice(spans)
            else:
                lo, hi = 0, N
            if hi - lo < 1:
                continue
            f = r.randint(lo, hi - 1)
            l = r.randint(1, hi - f)
            if all((f >= x and f + l <= y) or (f <= x and f + l >= y) or f + l <= x or f >= y for x, y in spans):
                spans.append((f, f + l))
                b += 1
                h.add("blk %d %d %d" % (b, h.vars[f], l))
                if r.random() < .5:
                    h.add("blkre %d %d" % (b, r.randint(0, 1)))
        for _ in range(4):
            h.add("dyn %d 1" % r.choice([1, 2]), "reorder", "snap")
            if b and r.random() < .6:
                h.add("blkre %d %d" % (r.randint(1, b), r.randint(0, 1)))
            for _ in range(3):
                h.rnd()
            h.add("dyn 0 1")
        L += h.L + fin()
    return L


def pipes(seed, n, N=6, width=8, levels=7, name="pipes"):
    """Pipelines over request DAGs, with collections and reorderings while
    results are pending."""
    h = H(seed, N, range(N), name)
    r = h.r
    for _ in range(20):
        h.rnd()
    for i in range(n):
        h.add("psetdepth %d" % r.choice([0, 1, 2, 3, 4, 5, 6, 8]))
        dynamic = r.random() < .4
        h.add(r.choice(DYN) if dynamic else "dyn 0 0")
        h.add("pi " + r.choice(["and", "or", "xor"]))
        prov = []
        last = [h.pick() for _ in range(width)]
        for lv in range(r.randint(1, levels)):
            nxt = []
            for _ in range(r.randint(1, width)):
                d = h.new()
                a = r.choice(last)
                b = r.choice(last if r.random() < .5 else (prov or last))
                if r.random() < .15:
                    b = h.pick()
                h.add("pc %d %d %d" % (d, a, b))
                nxt.append(d)
            prov += nxt
            last = nxt
        if r.random() < .3:
            h.add(r.choice(["gc", "reorder", "snap"]))
        if r.random() < .9:
            h.add("px")
            if r.random() < .4:
                h.add(r.choice(["gc", "reorder", "snap", "gc"]))
            got = r.sample(prov, r.randint(0, len(prov)))
            for p in got:
                d = h.new()
                h.add("pu %d %d" % (d, p))
                h.live.append(d)
                if r.random() < .1:
                    h.rnd()
                if r.random() < .05:
                    h.add(r.choice(["gc", "reorder"]))
        h.add("pq")
        for _ in range(3):
            h.rnd()
        h.thin(40)
        if i % 5 == 4:
            h.add("gc", "snap")
    return h.L + fin()


def soak(seed, n, bound, N=7, keep=4, name="soak"):
    """Garbage in great amounts: automatic collections keep the manager small."""
    h = H(seed, N, range(N), name)
    r = h.r
    for i in range(n):
        h.rich(N)
        if i % 7 == 3:
            h.op("comp", h.pick(), r.choice(h.vars), h.pick())
        h.thin(keep)
        if i % 20 == 19:
            h.add("bounded %d" % bound)
        if i % 60 == 59:
            h.add("gcmode 0", *["op xor %d %d %d" % (h.new(), h.pick(), h.pick()) for _ in range(2)])
            h.add("gcmode 1")
    h.add("gc", "snap")
    return h.L + fin()


def bulk(seed, n, N=10, reps=3, name="bulk"):
    """Many nodes of one variable (page lists grow) while the order changes."""
    h = H(seed, N, range(N), name)
    r = h.r
    h.add("every 6")
    for i in range(reps):
        for _ in range(n):
            h.rich(N)
        h.add("dyn %s 1" % r.choice("12"), "reorder")
        for _ in range(3):
            h.op(r.choice(["and", "xor", "or"]), h.pick(), h.pick())
        h.add("dyn %s 0" % r.choice("12"), "reorder", "dyn 0 0")
        h.thin(n // 2)
        h.add("gc")
        for v in range(1, N + 1):
            h.add("vid %d %d" % (h.new(), v), "op if %d %d" % (h.new(), h.pick()))
    h.add("every 1", "snap")
    return h.L + fin()


def deeppipe(seed, depth=262, N=5, name="deeppipe"):
    """A chain of pipelined requests up to the deepest there may be."""
    h = H(seed, N, range(N), name)
    r = h.r
    for _ in range(12):
        h.rnd()
    for op in ("xor", "and"):
        h.add("pi " + op)
        p, got = h.pick(), []
        for i in range(depth):
            d = h.new()
            h.add("pc %d %d %d" % ((d, p, h.pick()) if r.random() < .8 else (d, h.pick(), p)))
            p = d
            got.append(d)
            if i > 250:  # a sibling at the same depth
                d = h.new()
                h.add("pc %d %d %d" % (d, got[-2], h.pick()))
            if i >= 255:
                p = got[254]
        h.add("px")
        for d in [got[0], got[1], got[100], got[253], got[254]] + r.sample(got[2:253], 8):
            s = h.new()
            h.add("pu %d %d" % (s, d))
            h.live.append(s)
        h.add("gc", "pq", "snap")
        for _ in range(4):
            h.rnd()
    return h.L + fin()


def pipegc(seed, n, N=7, chain=60, name="pipegc"):
    """Long chains of requests over functions that move while they are executed."""
    h = H(seed, N, range(N), name)
    r = h.r
    h.add("every 5")

    def junk(k):
        keep = h.live[:]
        for _ in range(k):
            h.rich(r.choice([4, 5, N]))
        for s in [s for s in h.live if s not in keep]:
            h.live.remove(s)
            h.add("free %d" % s)

    for i in range(n):
        h.thin(4)
        junk(12)
        for _ in range(10):
            h.rich(r.choice([4, 5, N - 1]))
        junk(r.randint(2, 20))
        h.add("psetdepth %d" % r.choice([1, 1, 2, 3]))
        if r.random() < .3:
            h.add(r.choice(DYN))
        h.add("pi " + r.choice(["xor", "xor", "or", "and"]))
        p, got = h.pick(), []
        for _ in range(chain):
            d = h.new()
            h.add("pc %d %d %d" % ((d, p, h.pick()) if r.random() < .7 else (d, h.pick(), p)))
            p = d
            got.append(d)
        h.add("px")
        for d in r.sample(got, 6) + got[-3:]:
            s = h.new()
            h.add("pu %d %d" % (s, d))
            h.live.append(s)
        h.add("pq", "dyn 0 0")
    h.add("every 1", "gc", "snap")
    return h.L + fin()


def dumpbad(seed, n, N=6, name="dumpbad"):
    """Dumps and reads over arrays that miss, repeat or negate a variable."""
    h = H(seed, N, range(N), name)
    r = h.r
    neg = [h.op("not", v) for v in h.vars]
    one = h.new()
    h.add("const %d 1" % one)
    h.live = []
    for _ in range(15):
        h.rnd()
    for i in range(n):
        vs = h.vars[:]
        r.shuffle(vs)
        s = h.pick()
        h.add("dump g%d %d %s" % (i, s, " ".join(map(str, vs))))
        bad = vs[:]
        k = r.randrange(6)
        j = r.randrange(len(bad))
        if k == 0:
            del bad[j]
        elif k == 1:
            bad[j] = r.choice(bad)
        elif k == 2:
            bad[j] = neg[r.randrange(N)]
        elif k == 3:
            bad[j] = r.choice([one, h.pick()])
        elif k == 4:
            bad.insert(j, r.choice(h.vars))
        else:
            bad = bad[:r.randint(0, N - 1)]
        b = " ".join(map(str, bad))
        h.add("dump b%d %d %s" % (i, s, b), "undump b%d %d %s" % (i, h.new(), b), "undump b%d %d %s" % (i, h.new(), " ".join(map(str, vs))), "undump g%d %d %s" % (i, h.new(), b))
        d = h.new()
        h.add("undump g%d %d %s" % (i, d, " ".join(map(str, vs))))
        h.live.append(d)
        h.rnd()
        h.thin(15)
        if i % 8 == 7:
            h.add("gc", "snap")
    return h.L + fin()


def limits(seed, n, N=7, name="limits"):
    """The same calls under every node limit of a range, then without one."""
    h = H(seed, N, range(N), name)
    r = h.r
    for _ in range(25):
        h.rnd()
    for i in range(n):
        h.add("gc", "limit %d" % r.choice(list(range(1, 60)) + [80, 100, 150, 200]))
        keep = h.live[:]
        for _ in range(r.randint(4, 14)):
            x = r.random()
            if x < .6:
                h.rnd()
            elif x < .7:
                h.add("tinit 0 %d %d" % tuple(r.sample(h.vars, 2)))
                h.op(r.choice(["ex", "all"]), h.pick())
                h.op("rp", h.pick(), h.pick())
            elif x < .76:
                a = r.sample(h.vars, 4)
                h.add("tinit 1 %d %d %d %d" % (a[0], h.pick(), a[1], h.pick()))
                h.op("sub", h.pick())
                h.add("tinit 1 %d %d %d %d" % tuple(a))
                h.op("vsub", h.pick())
            elif x < .8:
                h.op("comp", h.pick(), r.choice(h.vars), h.pick())
            elif x < .9:
                h.op(r.choice(["cof", "red", "btw", "inter", "impl"]), h.pick(), h.pick())
            else:
                d = h.new(2)
                h.add("pw %s %d %d %d %d %d" % (r.choice(["and", "or", "xor"]), d, h.pick(), h.pick(), h.pick(), h.pick()))
                h.live += [d, d + 1]
        h.add("ovf", "limit 0")
        a, b = r.choice(keep), r.choice(keep)
        h.op(r.choice(["and", "xor"]), a, b)
        h.thin(30)
        if i % 6 == 5:
            h.add("gc", "snap")
        if i % 9 == 7:
            h.add(r.choice(DYN), "limit 20", "reorder", "dyn 0 0", "limit 0")
    return h.L + fin()


def reorders(seed, n, N=8, name="reorders"):
    """Reordering of large populations, each followed by a full inspection."""
    h = H(seed, N, range(N), name)
    r = h.r
    for i in range(n):
        for _ in range(r.randint(3, 10)):
            h.rnd()
        half = N // 2
        if r.random() < .3:
            vs = r.sample(h.vars, N)
            s = h.op("and", vs[0], vs[half])
            for k in range(1, half):
                s = h.op("or", s, h.op("and", vs[k], vs[half + k]))
        if r.random() < .3:
            k = r.randint(1, 3)
            h.add("tinit 1 " + " ".join("%d %d" % (v, h.pick()) for v in r.sample(h.vars, k)))
        if r.random() < .3:
            h.names += 1
            h.add("ainit %d 1 %s" % (h.names, " ".join("%d %d" % (v, h.pick()) for v in r.sample(h.vars, r.randint(1, 3)))))
        h.thin(r.choice([5, 20, 40]))
        if r.random() < .2:
            h.add("params %d %d %g 10" % (r.choice([5, 20, 100]), r.choice([50, 100, 1000]), r.choice([0, .5, .75, .95])))
        h.add(r.choice(DYN), "reorder", "snap", "dyn 0 0")
        if r.random() < .3:
            h.op("sub", h.pick())
        if r.random() < .2:
            h.add("gc", "snap")
    return h.L + fin()


def repeats(seed, n, N=5, name="repeats"):
    """The same calls again and again, with everything that may invalidate a
    cache in between."""
    h = H(seed, N, range(N), name)
    r = h.r
    base = [h.rich() for _ in range(8)] + [h.rnd() for _ in range(6)]
    h.add("ainit 1 0 %d %d" % tuple(r.sample(h.vars, 2)), "ainit 2 1 %d %d" % (h.vars[0], r.choice(base)), "ainit 3 1 %d %d %d %d" % (h.vars[1], h.vars[2], h.vars[2], h.vars[1]))
    calls = []
    for _ in range(40):
        f = r.choice(["and", "or", "xor", "ite", "ex", "all", "rp", "sub", "comp", "swap", "cof", "red", "btw", "inter", "impl", "nand", "xnor"])
        a = {"ite": lambda: [r.choice(base) for _ in range(3)], "ex": lambda: [r.choice(base)], "all": lambda: [r.choice(base)], "sub": lambda: [r.choice(base)],
             "comp": lambda: [r.choice(base), r.choice(h.vars), r.choice(base)], "swap": lambda: [r.choice(base)] + r.sample(h.vars, 2)}.get(f, lambda: [r.choice(base), r.choice(base)])()
        calls.append((f, a, r.choice([1, 2, 3, -1])))
    for i in range(n):
        f, a, s = r.choice(calls)
        if f in ("ex", "all", "rp", "sub"):
            if s == -1 and r.random() < .5:
                h.add("tinit 1 %d %d" % (r.choice(h.vars), r.choice(base)))
            h.add("aset %d" % s)
        h.op(f, *a)
        h.live = [x for x in h.live if x not in base]
        x = r.random()
        if x < .5:
            h.free(1)
        elif x < .55:
            h.thin(0)
        elif x < .6:
            h.add("gc")
        elif x < .63:
            h.add(r.choice(DYN), "reorder", "dyn 0 0")
        elif x < .66:
            h.add("tinit 0 " + " ".join(str(v) for v in r.sample(h.vars, r.randint(0, 2))))
        elif x < .68:
            h.add("taug 1 %d %d" % (r.choice(h.vars), r.choice(base)))
        h.thin(30)
    return h.L + fin()


def fleets(seed, n, N=5, name="fleets"):
    """Several managers at once, each with a history of its own."""
    r = random.Random(seed)
    hs = [H(seed * 10 + m, N, range(r.randint(2, N)), name, m=m) for m in range(5)]
    L = []
    for m, h in enumerate(hs):
        L += h.L
        h.L = []
    for i in range(n):
        m = r.randrange(5)
        h = hs[m]
        L.append("m %d" % m)
        x = r.random()
        if x < .7:
            h.rnd()
        elif x < .8:
            h.add("tinit 0 %d" % r.choice(h.vars))
            h.op("ex", h.pick())
        elif x < .85:
            h.add(r.choice(DYN), "reorder", "dyn 0 0")
        elif x < .9:
            h.add("gc", "snap")
        elif x < .93:
            h.add("limit %d" % r.choice([0, 0, 200]), "hset %d" % i, "hget")
        h.thin(20)
        L += h.L
        h.L = []
        if i % 60 == 59:      # one manager goes, another comes
            L += ["m %d" % m] + fin()
            hs[m] = H(seed * 10 + i, N, range(r.randint(2, N)), name, m=m)
            if m == 0:
                hs[m].L = hs[m].L[1:]
            L += hs[m].L
            hs[m].L = []
    for m in range(5):
        L += ["m %d" % m] + fin()
    return L


def xmany(seed, count=270):
    """Wrapper objects in great numbers, in containers, as temporaries and as results."""
    r = random.Random(seed)
    L = ["reset xmany", "xinit 0 4 4", "xo vid 1 1", "xo vid 2 2", "xo opxor 3 1 2"]
    ids = [1, 2, 3]
    for k in range(count):
        src = r.choice([3, 3, 3, r.choice(ids)])
        f = r.choice(["copy", "id", "not", "vec", "reg", "copy"])
        L.append("xo %s %d %s" % (f, 10 + k, src))
        ids.append(10 + k)
        if r.random() < 0.1:
            L.append("xa %s %d %d" % (r.choice(["copy", "move"]), 10 + k, r.choice(ids[:3])) if r.random() < 0.5 else "xa copy %d %d" % (10 + k, 10 + k))
    L += ["xq rc 3", "xgc"]
    r.shuffle(ids)
    for k in range(0, len(ids), 9):
        L.append("xdel " + " ".join(map(str, ids[k:k + 9])))
    L += ["xgc", "xo vid 1 1", "xo vid 2 2", "xo opxor 3 1 2", "xq rc 3", "xgc", "xquit"]
    return L


def xshort(seed, n=60):
    """Short programs: every expression, assignment form and container call on fresh objects."""
    r = random.Random(seed)
    una = ["id", "cid", "not", "cnot", "tilde", "reg", "creg", "if", "then", "else", "cif", "cthen", "celse", "sat", "csat", "sats", "csats", "ex", "all", "sub", "vsub"]
    bina = ["and", "or", "xor", "nand", "nor", "xnor", "diff", "cand", "cor", "cxor", "cnand", "cnor", "cxnor", "opand", "opor", "opxor", "opdiff", "inter", "cinter", "impl", "cimpl", "cof", "ccof", "red", "cred", "btw", "rp"]
    tern = ["ite", "cite", "chain"]
    mv = ["comp", "ccomp", "swap", "cswap"]
    L = ["reset xshort", "xinit 0 4 4"]
    for k in range(4):
        L.append("xo vid %d %d" % (1 + k, 1 + k))
    L += ["xas tinit 1 1 1 3 2 4", "xo opxor 5 1 2", "xo opand 6 3 4", "xo opor 7 5 6", "xo tilde 8 7"]
    d = 20
    base = [1, 2, 3, 4, 5, 6, 7, 8]
    for f in una + bina + tern + mv:
        for _ in range(2):
            x = [r.choice(base) for _ in range(3)]
            if f in mv:
                x[1] = r.choice(base[:4])
                if f in ("swap", "cswap"):
                    x[2] = r.choice(base[:4])
            n = 1 if f in una else 2 if f in bina else 3
            a = " ".join(map(str, x[:n]))
            L.append("xo %s %d %s" % (f, d, a))
            L.append("xo copy %d %d" % (d + 1, r.choice(base)))
            L.append("xa %s %d %s" % (f, d + 1, a))
            if r.random() < 0.6:
                L.append("xdel %d %d" % (d, d + 1))
            d += 2
    for f in ("and", "or", "xor"):
        for n in range(0, 5):
            for how in (0, 1):
                x = [r.choice(base) for _ in range(2 * n)]
                L.append("xpw %s %d %d %s" % (f, how, d, " ".join(map(str, x))))
                if n:
                    L.append("xdel " + " ".join(str(d + i) for i in range(n)))
                d += n + 1
                L.append("xmw %s %d %d %s" % (f, how, d, " ".join(map(str, x[:n]))))
                d += 1
            L.append("xmw %s 2 %d %s" % (f, d, " ".join(str(r.randint(1, 4)) for _ in range(n))))
            d += 1
    for f in ("init", "initi", "tinit", "tiniti", "taug", "taugi"):
        for pairs in (0, 1):
            L.append("xas %s %d %d 1 2" % (f, 10 + pairs, pairs))
            L.append("xas set %d" % r.choice([-1, 10, 11]))
            L.append("xo ex %d 7" % d)
            L.append("xo sub %d 8" % (d + 1))
            d += 2
    L += ["xas set -1", "xas tquit", "xas quit 10", "xas quit 11", "xmovecal", "xgc", "xquit"]
    return L
