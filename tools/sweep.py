"""Mutation sweep over the library (development tool; no registered check uses it).

  sweep.py prep DIR [SEED]      collect the scripts of every quick check, record the unchanged code
  sweep.py run DIR FILE... [-n COUNT] [-s SEED] [-j JOBS] [-p PROPERTY]
        sample COUNT mutants of each /repo/src FILE; a mutant is "killed" when TLC rejects a recorded trace
        that differs from the unchanged code's, "differs" when only accepted differences were seen,
        "survived" when nothing recorded differs.  Results are appended to DIR/results.jsonl.
Mutants live in copies under DIR; /repo is only read."""
import json, os, pickle, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import calcheck as C

VARS = ["scaled", "bf", "df", "stock", "asan", "stockasan"]


def prep(d, seed):
    import tasks
    os.makedirs(d, exist_ok=True)
    env = C.Env()
    corpus, seen = [], set()

    def one(pt):
        p, t = pt
        if t["kind"] == "mc":
            return None
        if t["kind"] == "gen":
            bs, g = C.generate(env, t["profile"], t["seed"], t["num"], t.get("gen", "GenCal"))
            lines = [l for b in bs for l in t.get("lines", C.to_lines)(b, t["profile"]["N"])]
        else:
            lines = t["lines"]
        t0 = time.time()
        ex = C.execute(env, t["variant"], lines, t["name"])
        return {"prop": p, "name": t["name"], "variant": t["variant"], "module": t.get("module", "TraceCal"), "lines": lines, "events": ex["events"], "wall": time.time() - t0}
    todo = [(p, t) for p in sorted(tasks.TABLE) for t in tasks.tasks(p, "quick", seed)]
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, todo):
            if r:
                corpus.append(r)
    pickle.dump(corpus, open(os.path.join(d, "corpus.pickle"), "wb"))
    print(len(corpus), "scripts", sum(len(r["events"]) for r in corpus), "events", round(sum(r["wall"] for r in corpus)), "s")
    env.close()


REL = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), (" < ", " <= "), (" > ", " >= "), ("++", "--"), (" + 1", ""), (" - 1", ""), ("+1", ""), ("-1", ""), (" & ", " | "),
       ("f0", "f1"), ("f1", "f0"), ("Then", "Else"), ("Else", "Then"), ("->next", ""), ("Icr", "Dcr"), ("bddOne", "bddZero"), ("bddZero", "bddOne"), ("if (", "if (!("), ("if(", "if(!("), ("0;", "1;"), ("1;", "0;"), ("result1", "result2"),
       ("f, g", "g, f"), ("= 0", "= 1"), ("Max", "Min"), ("continue", "break"), ("index", "id")]


def mutants(path):
    src = open(path).read().split("\n")
    out, depth, infn, comment = [], 0, False, False
    for i, l in enumerate(src):
        s = l.strip()
        if comment or s.startswith("/*"):
            comment = "*/" not in s
            continue
        if s.startswith(("#", "*", "//", "static ", "extern")) or not s:
            depth += l.count("{") - l.count("}")
            continue
        inside = depth > 0
        depth += l.count("{") - l.count("}")
        if not inside:
            continue
        for a, b in REL:
            for m in re.finditer(re.escape(a), l):
                k = m.start()
                if a in ("f0", "f1", "index") and (l[k - 1:k].isalnum() or l[k + len(a):k + len(a) + 1].isalnum()):
                    continue
                if a in ("<=", ">=") and (l[k - 1:k] in "<>" or l[k + 2:k + 3] == "="):
                    continue
                if a.startswith("if"):
                    # negate the whole condition when it closes on the line
                    j, d = k + len(a), 1
                    while j < len(l) and d:
                        d += (l[j] == "(") - (l[j] == ")")
                        j += 1
                    if d:
                        continue
                    n = l[:k] + b + l[k + len(a):j] + ")" + l[j:]
                else:
                    n = l[:k] + b + l[k + len(a):]
                out.append((i, l, n))
        if s.endswith(";") and not s.startswith(("return", "break", "}", "for", "else")) and not re.match(r"^(const |unsigned )?[A-Za-z_][\w]*(_t)?\s*\**\s+\**[a-zA-Z_]\w*(\[.*\])?( = .*|, .*)?;$", s) and depth > 0:
            j = i
            if "(" in s and s.count("(") != s.count(")"):
                continue
            out.append((i, l, re.sub(r"\S.*", ";", l)))
    return src, out


class Tree:
    def __init__(self, d, k):
        self.dir = os.path.join(d, "w%d" % k)
        if not os.path.isdir(self.dir):
            os.makedirs(self.dir)
            shutil.copytree(os.path.join(C.REPO, "src"), os.path.join(self.dir, "repo", "src"))
        self.make()

    def make(self, err=False):
        ps = [subprocess.Popen(["make", "-s", "-C", os.path.join(C.VERIF, "driver"), "OUT=" + os.path.join(self.dir, v), "VARIANT=" + v, "REPO=" + os.path.join(self.dir, "repo")],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for v in VARS]
        return all([p.wait() == 0 for p in ps])


class FakeEnv(C.Env):
    def __init__(self, tree):
        C.Env.__init__(self)
        self.tree = tree

    def driver(self, variant):
        return os.path.join(self.tree.dir, variant, "driver")


def canon(l):
    """The event, with what the order of bins decides in a snapshot taken out."""
    if not l.startswith('{"e":"snap"'):
        return l
    e = json.loads(l)
    N, H = e["nodes"], {}

    def edge(c):
        n = c // 2
        if n not in H:
            H[n] = hash((N[n - 1][0], edge(N[n - 1][1]), edge(N[n - 1][2]))) if n else 17
        return (H[n], c % 2)
    try:
        e["nodes"] = sorted([edge(2 * i + 2)[0], n[3]] for i, n in enumerate(N))
        e["users"] = sorted([edge(u[0]), u[1]] for u in e["users"])
        e["as"] = sorted([a[0], a[1], edge(a[2])] for a in e["as"])
    except (IndexError, RecursionError):
        pass
    return json.dumps(e)


def test(tree, corpus, rng):
    env = FakeEnv(tree)
    try:
        order = list(range(len(corpus)))
        rng.shuffle(order)
        order.sort(key=lambda k: corpus[k]["wall"] * rng.random())
        differs, tries = [], 0
        for k in order:
            c = corpus[k]
            ex = C.execute(env, c["variant"], c["lines"], "m", 60)
            if ex["events"] == c["events"]:
                continue
            new, old = C.sections(ex["events"]), C.sections(c["events"])
            bad = [s for i, s in enumerate(new) if i >= len(old) or s != old[i] and [canon(l) for l in s] != [canon(l) for l in old[i]]]
            if not bad and len(new) == len(old):
                continue
            ev = [l for s in bad[:3] for l in s] if bad else ex["events"]
            v = C.validate(env, ev, c["module"], "m")
            tries += 1
            if v["verdict"] == "rejected" or (v["verdict"] == "error" and ex["rc"] != 0):
                return {"verdict": "killed", "by": c["prop"] + ":" + c["name"], "why": str(C.mismatch(v["out"]))[:160], "tries": tries}
            differs.append(c["prop"] + ":" + c["name"])
            if tries > 12:
                break
        return {"verdict": "differs" if differs else "survived", "differs": differs[:6], "tries": tries}
    finally:
        env.close()


def run(d, files, count, seed, jobs, prop):
    corpus = pickle.load(open(os.path.join(d, "corpus.pickle"), "rb"))
    corpus = [c for c in corpus if prop in ("", c["prop"])]
    rng = random.Random(seed)
    todo = []
    if files == ["-"]:
        for l in open(os.path.join(d, "again.jsonl")):
            r = json.loads(l)
            src = open(os.path.join(C.REPO, "src", r["file"])).read().split("\n")
            old = src[r["line"] - 1]
            todo.append((r["file"], src, r["line"] - 1, old, old.replace(r["old"], r["new"])))
        files = []
    for f in files:
        src, ms = mutants(os.path.join(C.REPO, "src", f))
        rng.shuffle(ms)
        todo += [(f, src) + m for m in ms[:count]]
    rng.shuffle(todo)
    import queue, threading
    q = queue.Queue()
    for t in todo:
        q.put(t)
    lock = threading.Lock()

    def work(k):
        tree = Tree(d, k)
        r = random.Random(seed * 100 + k)
        while True:
            try:
                f, src, i, old, new = q.get_nowait()
            except queue.Empty:
                return
            p = os.path.join(tree.dir, "repo", "src", f)
            s = list(src)
            s[i] = new
            open(p, "w").write("\n".join(s))
            t0 = time.time()
            res = test(tree, corpus, r) if tree.make() else {"verdict": "nocompile"}
            open(p, "w").write("\n".join(src))
            res.update(prop=prop, file=f, line=i + 1, old=old.strip(), new=new.strip(), wall=round(time.time() - t0, 1))
            with lock:
                open(os.path.join(d, "results.jsonl"), "a").write(json.dumps(res) + "\n")
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(work, range(jobs)))


if __name__ == "__main__":
    a = sys.argv[1:]
    opt = {"-n": 20, "-s": 1, "-j": 4, "-p": ""}
    for o in list(opt):
        if o in a:
            k = a.index(o)
            opt[o] = a[k + 1] if o == "-p" else int(a[k + 1])
            del a[k:k + 2]
    if a[0] == "prep":
        prep(a[1], int(a[2]) if len(a) > 2 else 1)
    else:
        run(a[1], a[2:], opt["-n"], opt["-s"], opt["-j"], opt["-p"])
