"""Engine behind every check: build the driver from /repo, let TLC generate
behaviours of the specification, execute scripts against the real library and
let TLC decide whether what was recorded is a behaviour of the specification.

Nothing in this file judges the library; the verdict is always TLC's."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
KIND_NULL = 0


class CheckError(Exception):
    pass


class Env:
    """A scratch area and the drivers built into it."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="calverif.")
        self.locks = {}
        self.lock = threading.Lock()
        self.n = 0
        self.notes = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, "%04d.%s" % (self.n, re.sub(r"\W", "_", name)))
        os.makedirs(d)
        return d

    def driver(self, variant):
        with self.lock:
            l = self.locks.setdefault(variant, threading.Lock())
        with l:
            out = os.path.join(self.dir, "build." + variant)
            exe = os.path.join(out, "driver")
            if not os.path.exists(exe):
                os.makedirs(out, exist_ok=True)
                r = subprocess.run(["make", "-s", "-j8", "-C", os.path.join(VERIF, "driver"), "OUT=" + out, "VARIANT=" + variant, "REPO=" + REPO],
                                   capture_output=True, text=True)
                if r.returncode != 0 or not os.path.exists(exe):
                    raise CheckError("build of the %s driver failed:\n%s" % (variant, (r.stdout + r.stderr)[-3000:]))
            return exe


# ---------------------------------------------------------------------------
def tlc(env, module, cfg, extra=(), environ=None, workers=1, heap="2g", timeout=800):
    d = env.path("tlc." + module)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", d, "-config", cfg] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(environ or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
    shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r"(\d+) states generated", out)
    n = re.findall(r"(\d+) distinct states found", out)
    return {"rc": rc, "out": out, "states": int(n[-1]) if n else (int(m[-1]) if m else 0),
            "transitions": int(m[-1]) if m else 0, "wall": time.time() - t0}


# --- generation --------------------------------------------------------------
def to_lines(behaviour, N):
    """Script lines that replay a behaviour of the specification."""
    L = ["reset gen", "minit 0 %d" % N]
    cur = 0
    live = {0: "ready"}
    S = lambda q: " ".join(str(x) for x in q)
    for e in behaviour:
        k = e["e"]
        if k == "minit":
            L.append("minit %d %d" % (e["m"], e["N"]))
            cur = e["m"]
            live[cur] = "ready"
            continue
        if e["m"] != cur:
            cur = e["m"]
            L.append("m %d" % cur)
        if k == "mquit":
            L += ["pq", "freeall", "mquit"]
            live.pop(cur, None)
            continue
        a, p = e.get("a", []), e.get("p", [])
        d = e["rs"][0]["d"] if e.get("rs") else None
        if k == "var":
            L.append("var %d c%d %s%s" % (d, e["c"], e["pos"], " %d" % e["s"] if e["pos"] in ("before", "after") else ""))
        elif k == "idle":
            L.append("idle %d %s%s" % (e["n"], e["pos"], " %d" % e["s"] if e["pos"] in ("before", "after") else ""))
        elif k == "const":
            L.append("const %d %d" % (d, e["v"]))
        elif k in ("vid", "vidx"):
            L.append("%s %d %d" % (k, d, p[0]))
        elif k == "op":
            L.append("op %s %d %s" % (e["f"], d, S(a)))
        elif k == "unfree":
            L.append("unfree %d %d" % (a[0], p[0]))
        elif k == "revive":
            L.append("revive %d" % d)
        elif k in ("dec", "free"):
            L.append("%s %s" % (k, S(a)))
        elif k == "mw":
            L.append("mw %s %d %s" % (e["f"], d, S(a)))
        elif k == "pw":
            L.append("pw %s %d %s" % (e["f"], e["d0"], S(a)))
        elif k in ("gc", "reorder", "gclimit", "snap", "tquit", "pq", "px", "ovf", "hget"):
            L.append(k)
            live[cur] = "ready"
        elif k in ("hset", "gcmode", "limit", "psetdepth"):
            L.append("%s %d" % (k, p[0]))
        elif k == "dyn":
            L.append("dyn %d %d" % tuple(p))
        elif k == "params":
            L.append("params %s" % S(e["pa"]))
        elif k == "ainit":
            L.append("ainit %d %d %s" % (e["nm"], p[0], S(a)))
        elif k in ("tinit", "taug"):
            L.append("%s %d %s" % (k, p[0], S(a)))
        elif k in ("aset", "aquit"):
            L.append("%s %d" % (k, e["nm"]))
        elif k == "pi":
            L.append("pi %s" % e["f"])
        elif k == "pc":
            L.append("pc %d %s" % (e["d"], S(a)))
        elif k == "pu":
            L.append("pu %d %d" % (d, a[0]))
        elif k == "dump":
            L.append("dump %s %d %s" % (e["fid"], a[0], S(p)))
        elif k == "undump":
            L.append("undump %s %d %s" % (e["fid"], d, S(p)))
        elif k == "damage":
            L.append("damage %s %s %s %d%s" % (e["fid"], e["old"], e["how"], e["off"], "" if e["how"] == "trunc" else " %d" % e["val"]))
        elif k == "blk":
            L.append("blk %d %d %d" % (e["b"], a[0], p[0]))
        elif k == "blkre":
            L.append("blkre %d %d" % (e["b"], p[0]))
        elif k == "pr":
            L.append("pr %d %d" % (a[0], p[0]))
        elif k == "fpr":
            L.append("fpr %d" % a[0])
        elif k == "q":
            f = e["f"]
            if f in ("size", "prof", "pprof", "pfprof"):
                L.append("q %s %s %d" % (f, S(a), p[0]))
            elif f in ("sizem", "profm", "pprofm", "pfprofm"):
                L.append("q %s %d %s" % (f, p[0], S(a)))
            else:
                L.append("q %s %s" % (f, S(a)))
        else:
            raise CheckError("no script command for " + k)
    for m in sorted(live):
        L += ["m %d" % m, "pq", "gc", "snap", "freeall", "gc", "snap", "mquit"]
    return L


def mem_lines(behaviour, N=0):
    """Script lines for a behaviour of the allocator specification."""
    L = ["reset mem"]
    bl, rm, rc = set(), set(), {}
    for e in behaviour:
        k = e["e"]
        if k == "mget":
            L.append("mem get %d %d" % (e["id"], e["n"]))
            if e["n"]:
                bl.add(e["id"])
        elif k == "mfree":
            L.append("mem free %d" % e["id"])
            bl.discard(e["id"])
        elif k == "mresize":
            L.append("mem resize %d %d" % (e["id"], e["n"]))
            (bl.add if e["n"] else bl.discard)(e["id"])
        elif k == "mnop":
            L.append("mem morecore %d" % e["n"] if e["n"] else "mem freenull")
        elif k == "rnewmgr":
            L.append("mem newmgr %d %d" % (e["id"], e["n"]))
            rm.add(e["id"])
        elif k == "rfreemgr":
            L.append("mem freemgr %d" % e["id"])
            rm.discard(e["id"])
            rc = {r: m for r, m in rc.items() if m != e["id"]}
        elif k == "rnew":
            L.append("mem new %d %d" % (e["mg"], e["id"]))
            rc[e["id"]] = e["mg"]
        elif k == "rdel":
            L.append("mem del %d" % e["id"])
            rc.pop(e["id"], None)
    L += ["mem del %d" % r for r in sorted(rc)] + ["mem freemgr %d" % m for m in sorted(rm)] + ["mem free %d" % b for b in sorted(bl)]
    # with nothing live, memory served before serves again
    big = max([e["n"] for e in behaviour if e["e"] in ("mget", "mresize")] + [1])
    L += ["mem get 1000001 %d" % big, "mem free 1000001", "mem get 1000002 %d" % max(1, big // 3), "mem get 1000003 %d" % max(1, big // 3), "mem free 1000002", "mem free 1000003",
          "mem get 1000004 %d" % big, "mem free 1000004"]
    return L


def obj_lines(behaviour, N, nv):
    """Script lines for a history of wrapper statements."""
    L = ["reset obj", "xinit 0 %d %d" % (N, nv)]
    cur, live = 0, {0}
    S = lambda q: " ".join(str(x) for x in q)
    for e in behaviour:
        k = e["e"]
        if k == "xinit":
            L.append("xinit %d %d %d" % (e["m"], e["N"], e["n"]))
            cur = e["m"]
            live.add(cur)
            continue
        want = e["m1"] if k == "xcross" else e["m"]
        if want != cur:
            cur = want
            L.append("m %d" % cur)
        a, p = e.get("a", []), e.get("p", [])
        if k == "xquit":
            L.append("xquit")
            live.discard(cur)
        elif k == "xvar":
            L.append("xvar %d c%d %s %d" % (e["d"], e["c"], e["pos"], e["s"]))
        elif k in ("xo", "xa"):
            L.append("%s %s %d %s" % (k, e["f"], e["d"], S(a)))
        elif k == "xdel":
            L.append("xdel %s" % S(a))
        elif k in ("xmw", "xpw"):
            L.append("%s %s %d %d %s" % (k, e["f"], e["how"], e["d"], S(a)))
        elif k == "xas":
            f = e["f"]
            L.append("xas " + f if f == "tquit" else "xas %s %d" % (f, e["nm"]) if f in ("set", "quit") else "xas %s %d %d %s" % (f, e["nm"], p[0], S(a)))
        elif k == "xq":
            L.append("xq %s %s %s" % (e["f"], S(a), S(p)))
        elif k == "xpr":
            L.append("xq pr %s" % S(a))
        elif k in ("xgc", "xreorder", "xmovecal"):
            L.append(k)
        elif k in ("xdyn", "xlimit"):
            L.append("%s %s" % (k, S(p)))
        elif k == "xcross":
            L.append("xcross %d %d %d %d %d" % (e["d"], e["m"], e["s"], e["d2"], e["mv"]))
            cur = e["m"]
        else:
            raise CheckError("no script command for " + k)
    for m in sorted(live):
        L += ["m %d" % m, "xgc", "xquit"]
    return L


def file_lines(behaviour, N):
    """Script lines that read the files of a behaviour of the file format."""
    L = ["reset forge", "minit 0 %d" % N] + ["var %d c%d last" % (1 + i, i) for i in range(N)] + ["const 90 1"]
    be = lambda n, k: [(n >> (8 * (k - 1 - i))) & 255 for i in range(k)]
    for i, e in enumerate(behaviour):
        vs = [1 + (i * 7 + j * (1 + i % 3)) % N for j in range(e["nv"])]
        a = " ".join(map(str, vs))
        by = be(0x5e02f795, 8) + be(e["nv"], 2) + be(e["ns"], 8) + list(e["by"])
        if i == 0:
            L.append("dump f 90 " + " ".join(str(1 + j) for j in range(N)))
        L += ["damage g%d f put 0 %s" % (i, " ".join(map(str, by)))]
        src = "g%d" % i
        if len(by) < 20:
            L.append("damage h%d g%d trunc %d" % (i, i, len(by)))
            src = "h%d" % i
        L.append("undump %s %d %s" % (src, 100 + i, a))
        if i % 16 == 15:
            L += ["gc", "snap"]
        if i % 40 == 39:
            L += ["dyn 1 %d" % (i // 40 % 2), "reorder"]
    return L + ["gc", "snap", "freeall", "gc", "snap", "mquit"]


def generate(env, profile, seed, num, module="GenCal"):
    d = env.path("gen")
    pf = os.path.join(d, "profile.json")
    json.dump(profile, open(pf, "w"))
    r = tlc(env, module, module + ".cfg", ["-simulate", "num=%d" % num, "-depth", str(profile["depth"]), "-seed", str(seed)], {"PROFILE": pf})
    if r["rc"] != 0 or "Error:" in r["out"]:
        raise CheckError("generation failed (rc %d):\n%s" % (r["rc"], (r["out"][-3000:] if "Error:" not in r["out"] else r["out"][r["out"].index("Error:"):][:2500])))
    bs, last = [], 1 << 30
    for m in re.finditer(r'<<\s*"EV",\s*(\d+),\s*("(?:[^"\\]|\\.)*")\s*>>', r["out"]):
        n = int(m.group(1))
        if n <= last:
            bs.append([])
        last = n
        bs[-1].append(json.loads(json.loads(m.group(2))))
    return bs, r


# --- execution and validation ------------------------------------------------------
def execute(env, variant, lines, name, seconds=300):
    exe = env.driver(variant)
    d = env.path("run." + name)
    sp, lp = os.path.join(d, "script"), os.path.join(d, "log")
    open(sp, "w").write("\n".join(lines) + "\n")
    e = dict(os.environ)
    e.update(ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", UBSAN_OPTIONS="halt_on_error=1:exitcode=78", LC_ALL="C")
    for attempt in range(3):
        with open(os.path.join(d, "err"), "wb") as ef:
            r = subprocess.run(["setarch", "x86_64", "-R", exe, sp, lp, d, str(seconds)], stdout=subprocess.DEVNULL, stderr=ef, env=e, cwd=d)
        if r.returncode != -9 and r.returncode != 137:
            break
    err = open(os.path.join(d, "err"), errors="replace").read()
    log = open(lp, errors="replace").read().split("\n") if os.path.exists(lp) else []
    events = []
    for l in log:
        if not l:
            continue
        try:
            json.loads(l)
            events.append(l)
        except ValueError:
            break
    rc = r.returncode
    note = None
    if rc == 3:
        note = "script stopped: " + err.strip()[-200:]
    elif rc != 0:
        why = "hang" if rc == 4 else "exit %d" % rc
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err) or re.search(r"runtime error: (.{0,80})", err)
        if m:
            why += " " + m.group(1)
        events.append(json.dumps({"e": "crash", "m": 0, "o": [], "ov": 0, "nn": 0, "nv": 0, "chg": [], "mo": 1, "se": 0, "why": re.sub(r"[^\w .:-]", "_", why)}))
    for f in os.listdir(d):
        if f.startswith("d_") or f.endswith(".txt"):
            os.unlink(os.path.join(d, f))
    return {"events": events, "note": note, "rc": rc, "err": err[-2000:], "dir": d}


def sections(events):
    out, cur = [], []
    for l in events:
        if l.startswith('{"e":"reset"') and cur:
            out.append(cur)
            cur = []
        cur.append(l)
    if cur:
        out.append(cur)
    return out


def validate(env, events, module="TraceCal", name="v", heap="2g"):
    """verdict: accepted | rejected | illegal | error"""
    d = env.path("val." + name)
    tp = os.path.join(d, "trace.ndjson")
    open(tp, "w").write("\n".join(events) + "\n")
    r = tlc(env, module, module + ".cfg", [], {"TRACE": tp}, heap=heap)
    out = r["out"]
    res = {"states": r["states"], "transitions": r["transitions"], "wall": r["wall"], "out": out}
    m = re.search(r'<<\s*"REJECTED",\s*(\d+)', out)
    i = re.search(r'<<\s*"ILLEGAL",\s*(\d+)', out)
    s = re.search(r'<<\s*"STUCK",\s*(\d+)', out)
    if "Model checking completed. No error has been found" in out and not s:
        res["verdict"] = "accepted"
    elif m:
        res.update(verdict="rejected", at=int(m.group(1)))
    elif i:
        res.update(verdict="illegal", at=int(i.group(1)))
    elif "OutOfMemory" in out or "StackOverflow" in out or r["rc"] == 124 or r["rc"] < 0:
        res["verdict"] = "error"
    elif "Error:" in out and ("The behavior up to this point is" in out or "state number" in out or re.search(r"i = \d+", out)):
        k = re.findall(r"i = (\d+)", out)   # the event could not even be evaluated: a value outside every expected shape
        res.update(verdict="rejected", at=int(k[-1]) if k else 1)
    else:
        res["verdict"] = "error"
    return res


def mismatch(out):
    ms = re.findall(r'<<\s*"MISMATCH".*?>>(?=\s*\n[^ ]|\s*$|\s*<<)', out, re.S)
    if not ms:
        ms = re.findall(r"Error: .*?(?=\nError|\Z)", out, re.S)[:1]
    return [re.sub(r"\s+", " ", m)[:600] for m in ms[-3:]]


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.violations, self.notes, self.samples = [], [], []
        self.cov = {}
        self.gen_states = 0
        self.mc = []

    def add(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.events += o.events
        self.gen_states += o.gen_states
        self.violations += o.violations
        self.notes += o.notes
        self.mc += o.mc
        if len(self.samples) < 6:
            self.samples += o.samples[:2]
        for k, v in o.cov.items():
            self.cov[k] = self.cov.get(k, 0) + v


def judge(env, variant, lines, name, module="TraceCal", res=None, heap="2g", confirm=True, seconds=300):
    """Execute a script and validate its log; returns a Result."""
    res = res or Result()
    ex = execute(env, variant, lines, name, seconds)
    events = ex["events"]
    if ex["note"]:
        res.notes.append("%s: %s" % (name, ex["note"]))
    if not events:
        raise CheckError("%s: the driver recorded nothing (rc %d): %s" % (name, ex["rc"], ex["err"]))
    for l in events:
        e = json.loads(l)
        k = e["e"] + ("." + e["f"] if "f" in e else "")
        res.cov[k] = res.cov.get(k, 0) + 1
        if e["e"] not in ("var", "vars", "reset", "minit") and e.get("o"):
            res.cov["(order changed)"] = res.cov.get("(order changed)", 0) + 1
        if e.get("ov"):
            res.cov["(overflow)"] = res.cov.get("(overflow)", 0) + 1
    todo = events
    for _ in range(40):
        v = validate(env, todo, module, name, heap)
        res.states += v["states"]
        res.transitions += v["transitions"]
        if v["verdict"] == "accepted":
            res.events += len(todo)
            res.traces += len(sections(todo))
            break
        if v["verdict"] == "illegal":
            # the recorded behaviour left the preconditions the script was generated for
            # (an allowed but different result was continued with): drop the rest of that section
            secs, pos, keep = sections(todo), 0, []
            for s in secs:
                if pos < v["at"] <= pos + len(s):
                    keep.append(s[:v["at"] - pos - 1])
                    res.notes.append("%s: call %d (%s) outside the preconditions; rest of the section not judged" % (name, v["at"], json.loads(todo[v["at"] - 1])["e"]))
                else:
                    keep.append(s)
                pos += len(s)
            todo = [l for s in keep for l in s]
            if not todo:
                break
            continue
        if v["verdict"] == "rejected":
            mm = mismatch(v["out"])
            if confirm:
                ex2 = execute(env, variant, lines, name + ".again", seconds)
                if ex2["events"][:v["at"]] != events[:v["at"]] and not (ex2["events"] and '"crash"' in ex2["events"][-1]):
                    v2 = validate(env, ex2["events"], module, name, heap)
                    if v2["verdict"] == "accepted":
                        res.notes.append("%s: a rejection at event %d did not repeat: %s" % (name, v["at"], mm))
                        break
            res.violations.append({"name": name, "variant": variant, "module": module, "lines": lines, "events": todo, "at": v["at"], "mismatch": mm, "err": ex["err"]})
            break
        raise CheckError("%s: TLC gave no verdict:\n%s" % (name, v["out"][-3000:]))
    else:
        res.notes.append("%s: too many calls outside the preconditions" % name)
    if len(events) > 4:
        k = len(events) // 2
        res.samples.append({"script": name, "build": variant, "calls": lines[2:10], "recorded": json.loads(events[min(k, len(events) - 1)]) if len(events[k]) < 1500 else events[k][:300]})
    return res


def section_of(lines, events, at):
    """The script lines of the section an event belongs to."""
    k = sum(1 for l in events[:at] if l.startswith('{"e":"reset"'))
    cur, out = 0, []
    for l in lines:
        if l.split()[:1] == ["reset"]:
            cur += 1
        if cur == k:
            out.append(l)
    return out or lines


def save_violation(prop, n, v):
    d = os.path.join(VERIF, "evidence", "replay", "%s-%d" % (prop, n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "script"), "w").write("\n".join(section_of(v["lines"], v["events"], v["at"])) + "\n")
    lo = max(0, v["at"] - 12)
    open(os.path.join(d, "events.ndjson"), "w").write("\n".join(v["events"][lo:v["at"]]) + "\n")
    open(os.path.join(d, "why.txt"), "w").write(
        "task %s, driver build %s, specification %s\nrejected at event %d:\n%s\n\n%s\n\nreplay: python3 %s/tools/replay.py %s\n%s"
        % (v["name"], v["variant"], v["module"], v["at"], v["events"][v["at"] - 1][:2000], "\n".join(v["mismatch"]), VERIF, d, v["err"]))
    json.dump({"variant": v["variant"], "module": v["module"]}, open(os.path.join(d, "how.json"), "w"))
    return d
