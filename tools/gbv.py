"""Machinery shared by the checks: building the conformance drivers from
/repo's working tree, running TLC, walking the specification's state graphs in
the library, checking recorded traces, reporting."""
import glob, hashlib, json, os, random, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GBTL_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
PLATFORMS = ("sequential", "optimized_sequential")
JOBS = os.cpu_count() or 8
NONE = -999999
CP = ":".join(["/opt/veriftools/tla/tla2tools.jar"] +
              sorted(glob.glob("/opt/veriftools/tla/*ommunity*.jar")))

class Broken(Exception):
    """The check itself could not do its work (exit 2)."""
class Refused(Exception):
    """A call of the public interface does not compile any more."""

def pmap(f, xs):
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(f, list(xs)))

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          timeout=timeout, **kw)

# ------------------------------------------------------------------ building
def _digest():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"),):
        for dp, dn, fn in sorted(os.walk(root)):
            dn.sort()
            if "/test" in dp[len(root):] or "/demo" in dp[len(root):]: continue
            for f in sorted(fn):
                if f.endswith((".hpp", ".h")):
                    p = os.path.join(dp, f); h.update(p.encode()); h.update(open(p, "rb").read())
    h.update((" ".join(MEM) + os.environ["ASAN_OPTIONS"]).encode())
    for f in sorted(os.listdir(HARN)):
        h.update(f.encode()); h.update(open(os.path.join(HARN, f), "rb").read())
    return h.hexdigest()[:16]

# The library runs with its memory watched: an access outside an object, or one
# that uses a value nobody wrote, does not pass as luck.
os.environ["ASAN_OPTIONS"] = ("abort_on_error=1:detect_leaks=0:detect_odr_violation=0:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                              "detect_stack_use_after_return=1:handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_sigfpe=0:handle_abort=0")
MEM = ["-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_SANITIZE_VECTOR"]
def memory_watch(dir):
    """-fsanitize=address, where the machine supports it."""
    mark = os.path.join(dir, "asan")
    if not os.path.exists(mark):
        src = os.path.join(dir, "probe_%d" % os.getpid())
        with open(src + ".cpp", "w") as f: f.write("#include <vector>\nint main() { std::vector<int> v(9); return v[8]; }\n")
        ok = sh(["g++", "-fsanitize=address", "-ftrivial-auto-var-init=zero", src + ".cpp", "-o", src]).returncode == 0
        ok = ok and all(sh([src]).returncode in (0, 190, 0xbe) for _ in range(12))
        for x in (src, src + ".cpp"):
            if os.path.exists(x): os.unlink(x)
        with open(mark, "w") as f: f.write("1" if ok else "0")
    return ["-fsanitize=address"] if open(mark).read() == "1" else []

def control(dir):
    """The library as such compiles: what does not is a call of its interface that the harness makes."""
    src = os.path.join(dir, "control_%d.cpp" % os.getpid())
    with open(src, "w") as f: f.write("#include <graphblas/graphblas.hpp>\n#include <algorithms/algorithms.hpp>\n"
                                      "int main() { grb::Matrix<double> a(2, 2), c(2, 2);"
                                      " grb::mxm(c, grb::NoMask(), grb::NoAccumulate(), grb::ArithmeticSemiring<double>(), a, a); }\n")
    ok = all(sh(["g++", "-std=c++17", "-w", "-fsyntax-only", "-I" + REPO + "/src",
                 "-I%s/src/graphblas/platforms/%s" % (REPO, p), src]).returncode == 0 for p in PLATFORMS)
    os.unlink(src)
    return ok

_KEY = None
def build(units, main="driver"):
    """units: list of (source, typeset or None).  Returns {platform: binary}."""
    global _KEY
    if _KEY is None: _KEY = _digest()
    dir = os.path.join(BUILD, _KEY)
    for old in glob.glob(os.path.join(BUILD, "*")):       # keep the cache small
        if old != dir and os.path.isdir(old) and len(os.path.basename(old)) == 16 \
           and time.time() - os.path.getmtime(old) > 3600:
            subprocess.run(["rm", "-rf", old])
    os.makedirs(dir, exist_ok=True)
    jobs, objs = [], {p: [] for p in PLATFORMS}
    for p in PLATFORMS:
        for src, ts in units + [(main, None)]:
            o = os.path.join(dir, "%s_%s_%s.o" % (p, src, ts or ""))
            objs[p].append(o)
            if not os.path.exists(o): jobs.append((p, src, ts, o))
    # the slow ones first
    jobs.sort(key=lambda j: -os.path.getsize(os.path.join(HARN, j[1] + ".cpp")))
    san = memory_watch(dir)
    def comp(j):
        p, src, ts, o = j
        opt = "-O1" if src in ("driver", "fam_cont") else "-O0"
        cmd = ["g++", "-std=c++17", opt, "-w", "-D_GLIBCXX_ASSERTIONS"] + san + MEM + ["-I" + REPO + "/src",
               "-I%s/src/graphblas/platforms/%s" % (REPO, p)] + (["-DTS=" + ts] if ts else []) + \
              ["-c", os.path.join(HARN, src + ".cpp"), "-o", o + ".tmp"]
        r = sh(cmd, timeout=800)
        if r.returncode == 0: os.rename(o + ".tmp", o)
        return (r.returncode, "%s %s %s: %s" % (p, src, ts, r.stderr[:3000]))
    for rc, msg in pmap(comp, jobs):
        if rc == 1 and "error:" in msg and control(dir): raise Refused(msg)
        if rc: raise Broken("harness does not compile: " + msg)
    bins = {}
    for p in PLATFORMS:
        tag = hashlib.sha256(" ".join(objs[p]).encode()).hexdigest()[:12]
        b = os.path.join(dir, "drv_%s_%s" % (p, tag))
        if not os.path.exists(b):
            r = sh(["g++", "-Wl,-z,muldefs"] + san + objs[p] + ["-o", b + ".tmp"])
            if r.returncode: raise Broken("link: " + r.stderr[:2000])
            os.rename(b + ".tmp", b)
        bins[p] = b
    return bins

# ----------------------------------------------------------------------- TLC
def tlc(dir, module, cfg=None, env=None, workers=1, timeout=600, heap="2g", extra=()):
    md = os.path.join(dir, "md_%s_%d" % (module, random.SystemRandom().randrange(1 << 40)))
    cmd = ["java", "-XX:+Use%sGC" % ("Serial" if workers == 1 else "Parallel"), "-Xss16m", "-Xmx" + heap,
           "-DTLA-Library=" + SPEC, "-cp", CP, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE",
           "-workers", str(workers), "-metadir", md] + list(extra)
    if cfg: cmd += ["-config", cfg]
    cmd.append(module + ".tla")
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return r.returncode, r.stdout
    finally:
        subprocess.run(["rm", "-rf", md])

def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def printed(tag, out):
    """The strings that TLC printed as <<tag, string>>, on one line or (short ones) broken into two."""
    return re.findall(r'<<\s*"%s",\s*("(?:[^"\\]|\\.)*")\s*>>' % tag, out)

def check_trace(dir, trace, module="GBTLTrace", malformed=None):
    """Returns (rejects [(line, expected-json)], states).  With malformed (a list), a
    record whose judgement TLC cannot evaluate (rc 75, e.g. an answer of the wrong
    shape) is appended to it and the records after it are not judged."""
    cfg = os.path.join(SPEC, module + ".cfg")
    for attempt in (1, 2):
        rc, out = tlc(SPEC, module, cfg, {"TRACE": trace}, heap="3g", extra=())
        if rc == 0: break
        if rc == 75 and malformed is not None:
            at = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if at: malformed.append(int(at[-1])); break
    else:
        raise Broken("TLC on %s: rc %d\n%s" % (trace, rc, out[-3000:]))
    rej = [(int(a), json.loads('"%s"' % b))
           for a, b in re.findall(r'<<\s*"REJECT",\s*"(\d+)",\s*"((?:[^"\\]|\\.)*)"', out)]
    return rej, tlc_counts(out)[0]

# ------------------------------------------------------------------- records
OUTPUT_KEYS = ("ret", "s", "w")
def commands(records):
    return [{k: v for k, v in r.items() if k not in OUTPUT_KEYS} for r in records]

def load(path):
    with open(path) as f: return [json.loads(l) for l in f if l.strip()]

def dump(path, recs):
    with open(path, "w") as f:
        for r in recs: f.write(json.dumps(r, separators=(",", ":")) + "\n")

# --------------------------------------------------------------------- check
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.t0 = prop, tier, seed, time.time()
        self.dir = os.path.join(BUILD, "run_%s_%d" % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.counts = [], {}, {}
        self.found = []                      # (signature, what, replay records)
        self.known = self.load_known()
        self.exhaustive = []

    def load_known(self):
        p = os.path.join(VERIF, "known_findings.txt")
        out = []
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
                if m and m.group(1) == self.prop: out.append((m.group(2), m.group(3)))
        return out

    def lap(self, what):
        now = time.time()
        if os.environ.get("GBV_LAPS"): print("%7.1f s  %s" % (now - getattr(self, "_lap", self.t0), what), file=sys.stderr)
        self._lap = now

    def count(self, key, n=1): self.counts[key] = self.counts.get(key, 0) + n
    def left(self, budget): return budget - (time.time() - self.t0)

    # -- violations
    def violation(self, sig, what, records, platform=None):
        self.found.append((sig, what, records, platform))

    def finish(self, level="model_checking", assumptions=()):
        known_hit, fresh = {}, []
        for sig, what, recs, plat in self.found:
            k = [t for s, t in self.known if s == sig]
            if k: known_hit[sig] = k[0]
            else: fresh.append((sig, what, recs, plat))
        for sig, text in sorted(known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:6],
                   counts=dict(sorted(self.counts.items())))
        if self.exhaustive: cov["exhaustively_explored_instances"] = self.exhaustive
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2),
                  violations=len(fresh))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        subprocess.run(["rm", "-rf", self.dir])
        if fresh:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            sig, what, recs, plat = fresh[0]
            name = "replays/%s-%s.ndjson" % (self.prop, hashlib.sha256(
                json.dumps(recs, sort_keys=True).encode()).hexdigest()[:10])
            dump(os.path.join(VERIF, name), recs)
            print("%d mismatch(es); first on platform %s: %s" % (len(fresh), plat, what[:2000]))
            if os.environ.get("GBV_LAPS"):
                import collections
                print(collections.Counter(f[0] for f in fresh))
                for sg in sorted({f[0] for f in fresh}):
                    print("  e.g. " + min((f[1] for f in fresh if f[0] == sg), key=len)[:700])
            print("VIOLATION property=%s replay=%s" % (self.prop, name))
            return 1
        print("%s holds on everything explored: %d model states, %d model transitions, %d traces, %.1f s"
              % (self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0

    # -- generated traces of the library against GBTLTrace
    def record(self, bins, jobs):
        """jobs: (platform, profile dict, seed, first, n). Record and check."""
        def one(a):
            k, (plat, prof, seed, first, n) = a
            base = os.path.join(self.dir, "t%d" % (self.traces * 1000 + k))
            json.dump(prof, open(base + ".prof", "w"))
            with open(base + ".ndjson", "w") as f:
                try:
                    r = subprocess.run([bins[plat], "gen", base + ".prof", str(seed), str(first), str(n)],
                                       stdout=f, stderr=subprocess.PIPE, timeout=500)
                except subprocess.TimeoutExpired:
                    return plat, base, "driver did not finish", [], 0
            if r.returncode: return plat, base, "driver: " + r.stderr.decode()[-500:], [], 0
            crash = self.split_crash(base + ".ndjson")
            rej, st = check_trace(self.dir, base + ".ndjson")
            return plat, base, crash, rej, st
        for plat, base, crash, rej, st in pmap(one, enumerate(jobs)):
            recs = load(base + ".ndjson")
            if isinstance(crash, str): raise Broken(crash)
            self.traces += sum(1 for r in recs if r["op"] == "init")
            self.count("calls_checked", st)
            self.states += st; self.transitions += st
            self.tally(recs)
            if not self.samples or (len(self.samples) < 4 and random.random() < 0.3): self.sample(recs)
            if crash: self.crashed(plat, recs, crash)
            for line, exp in rej[:6]: self.confirm(bins, plat, recs, line, exp)
            for ext in (".ndjson", ".prof"): os.unlink(base + ext)

    def split_crash(self, path):
        last = None
        with open(path) as f:
            lines = f.read().split("\n")
        lines = [l for l in lines if l]
        if lines and lines[-1].startswith('{"crash"'):
            last = json.loads(lines[-1])
            with open(path, "w") as f: f.write("\n".join(lines[:-1]) + "\n")
        return last

    def script_of(self, recs, line):
        k = line - 1
        while recs[k]["op"] != "init": k -= 1
        return recs[k:line]

    def crashed(self, plat, recs, crash):
        script = commands(self.script_of(recs, len(recs)) if recs else []) + \
                 ([crash["cmd"]] if isinstance(crash["cmd"], dict) else [])
        op = crash["cmd"].get("op") if isinstance(crash["cmd"], dict) else "?"
        self.violation("crash-" + str(op), "the library crashed or hung (signal %s) in %s"
                       % (crash["crash"], json.dumps(crash["cmd"])[:1500]), script, plat)

    def confirm(self, bins, plat, recs, line, exp):
        script = commands(self.script_of(recs, line))
        base = os.path.join(self.dir, "c%d" % random.SystemRandom().randrange(1 << 40))
        dump(base + ".cmd", script)
        with open(base + ".ndjson", "w") as f:
            subprocess.run([bins[plat], "play", base + ".cmd"], stdout=f, timeout=300)
        crash = self.split_crash(base + ".ndjson")
        rej, _ = check_trace(self.dir, base + ".ndjson")
        got = recs[line - 1]
        if crash: self.crashed(plat, load(base + ".ndjson"), crash)
        elif rej:
            what = "call %s; specification allows %s; library gave ret=%s s=%s w=%s" % (
                json.dumps({k: v for k, v in got.items() if k not in OUTPUT_KEYS}), exp,
                got["ret"], got["s"], json.dumps(got["w"]))
            self.violation("op-" + got["op"], what, script, plat)
        else:
            # the mismatch depends on more than this script: report the whole prefix
            self.violation("op-" + got["op"], "mismatch not reproduced by its script alone: %s; expected %s"
                           % (json.dumps(got)[:1500], exp), commands(recs[:line]), plat)

    def tally(self, recs):
        for r in recs:
            op = r["op"]
            if op in ("init", "new"): continue
            self.count("op." + op)
            if r["ret"] != "ok": self.count("rejected." + r["ret"])
            if "mk" in r:
                self.count("mask." + r["mk"]); self.count("acc." + ("no" if r["acc"]["f"] == "no" else "yes"))
                self.count("outp." + r["z"])
                o = r.get("o")
                if o and o in (r.get("a"), r.get("b"), r.get("m")): self.count("aliased")

    def sample(self, recs):
        k = [i for i, r in enumerate(recs) if r["op"] not in ("init", "new")]
        if k: self.samples.append(recs[random.choice(k)])

    # -- corrupted traces must be rejected: the binding is real
    def binding_demo(self, bins, prof, seed):
        base = os.path.join(self.dir, "demo")
        json.dump(prof, open(base + ".prof", "w"))
        out = sh([bins["sequential"], "gen", base + ".prof", str(seed), "0", "6"]).stdout
        recs = [json.loads(l) for l in out.split("\n") if l and not l.startswith('{"crash"')]
        idx = [i for i, r in enumerate(recs) if r["op"] not in ("init",) and r["ret"] == "ok" and r["w"]]
        if not idx: raise Broken("nothing to corrupt")
        rnd = random.Random(seed)
        i = rnd.choice(idx)
        w = recs[i]["w"][0]
        x = w["x"]
        row = x if w["k"] == "V" else x[rnd.randrange(len(x))]
        j = rnd.randrange(len(row))
        row[j] = 1 if row[j] == NONE else NONE
        dump(base + ".ndjson", recs)
        rej, _ = check_trace(self.dir, base + ".ndjson")
        if not any(l == i + 1 for l, _ in rej) and not any(l < i + 1 for l, _ in rej):
            raise Broken("a corrupted trace was accepted")
        self.notes["corrupted_trace_rejected_at_call"] = i + 1

    # -- the same commands on both platforms: the specification Pair compares
    def pair(self, bins, prof, seed, n):
        def one(k):
            base = os.path.join(self.dir, "pair%d" % k)
            json.dump(prof, open(base + ".prof", "w"))
            a, b = base + ".a.ndjson", base + ".b.ndjson"
            with open(a, "w") as f:
                subprocess.run([bins["sequential"], "gen", base + ".prof", str(seed), str(700000 + k * 1000), "25"],
                               stdout=f, timeout=300)
            ca = self.split_crash(a)
            dump(base + ".cmd", commands(load(a)))
            with open(b, "w") as f:
                subprocess.run([bins["optimized_sequential"], "play", base + ".cmd"], stdout=f, timeout=300)
            cb = self.split_crash(b)
            rc, out = tlc(SPEC, "Pair", os.path.join(SPEC, "Pair.cfg"), {"TRACE_A": a, "TRACE_B": b})
            if rc: raise Broken("TLC Pair rc %d %s" % (rc, out[-2000:]))
            dif = [int(x) for x in re.findall(r'<<\s*"DIFFER",\s*"(\d+)"', out)]
            return a, b, ca, cb, dif, tlc_counts(out)[0]
        for a, b, ca, cb, dif, st in pmap(one, range(n)):
            ra, rb = load(a), load(b)
            self.count("calls_compared_between_platforms", min(len(ra), len(rb)))
            self.traces += sum(1 for r in rb if r["op"] == "init")
            if ca: self.crashed("sequential", ra, ca)
            if cb: self.crashed("optimized_sequential", rb, cb)
            for l in dif[:3]:
                r = ra[l - 1] if l <= len(ra) else {"op": "end"}
                self.violation("pair-" + r["op"], "platforms differ on %s: sequential ret=%s s=%s w=%s; optimized ret=%s s=%s w=%s" % (
                    json.dumps({k: v for k, v in r.items() if k not in OUTPUT_KEYS}), r.get("ret"), r.get("s"), r.get("w"),
                    rb[l - 1]["ret"] if l <= len(rb) else "-", rb[l - 1]["s"] if l <= len(rb) else "-",
                    rb[l - 1]["w"] if l <= len(rb) else "-"),
                    commands(self.script_of(ra, min(l, len(ra)))), "both")

    # -- exhaustive exploration of the specification, replayed in the library
    def explore(self, bins, name, conf, module="MCOps", cap=None, timeout=800):
        import mcgen
        if module == "MCOps": mcgen.write(self.dir, name, conf)
        else: mcgen.write(self.dir, name, conf, module=module, laws=["TypeOK"], defaults={})
        rc, out = tlc(self.dir, name, name + ".cfg", workers=JOBS, timeout=timeout, heap="8g")
        self.lap("tlc " + name)
        if rc: raise Broken("TLC %s: rc %d\n%s" % (name, rc,
                       "\n".join(l for l in out.split("\n") if not l.startswith('<<"'))[-3000:]))
        gen, dist = tlc_counts(out)
        self.states += dist
        raw = printed("[TE]", out)
        total = len(raw)
        self.transitions += total
        rnd = random.Random(self.seed)
        raw.sort()                          # TLC's workers print in any order
        if module != "MCCont" and cap and total > cap: raw = rnd.sample(raw, cap)
        trans = [json.loads(json.loads(x)) for x in raw]
        lines = walk(trans, rnd) if module == "MCCont" else trans
        self.exhaustive.append(dict(instance=name, states=dist, transitions=total,
                                    replayed_in_library_per_platform=len(lines)))
        self.lap("parse %s %d" % (name, len(lines)))
        self.replay(bins, name, lines)
        self.lap("replay " + name)
        return len(lines)

    def replay(self, bins, name, lines):
        n = max(1, JOBS // 2)
        # scripts (a line with "objs" starts one) are kept whole
        chunks, cur = [[] for _ in range(n)], -1
        size = [0] * n
        for t in lines:
            if "objs" in t or cur < 0: cur = size.index(min(size))
            chunks[cur].append(t); size[cur] += 1
        jobs = []
        for k, ch in enumerate(chunks):
            if not ch: continue
            f = os.path.join(self.dir, "%s_%d.replay" % (name, k)); dump(f, ch)
            for p in PLATFORMS: jobs.append((p, f))
        def one(j):
            p, f = j
            r = sh([bins[p], "replay", f], timeout=800)
            return p, f, r
        total = 0
        for p, f, r in pmap(one, jobs):
            ls = [l for l in r.stdout.split("\n") if l]
            if r.returncode or not ls: raise Broken("replay: rc %s %s" % (r.returncode, r.stderr[-500:]))
            for l in ls:
                m = json.loads(l)
                if "replayed" in m: total += m["replayed"]
                elif "crash" in m:
                    self.violation("crash", "the library crashed or hung (signal %s) in %s" %
                                   (m["crash"], json.dumps(m["cmd"])[:1500]), [m], p)
                else:
                    t = m["t"]; op = t.get("cmd", {}).get("op", "new")
                    self.violation("op-" + op, "%s: specification step %s; library did %s" %
                                   (m["what"], json.dumps(t)[:1500], json.dumps(m.get("got"))[:1500]), [t], p)
        self.traces += sum(1 for t in lines if "objs" in t) * len(PLATFORMS)
        self.count("specification_steps_replayed", total)
        if lines and len(self.samples) < 5: self.samples.append(random.Random(self.seed).choice(lines))
        for p, f in jobs:
            if os.path.exists(f): os.unlink(f)

def walk(edges, rnd, maxlen=400):
    """Scripts that together take every transition of the state graph."""
    key = lambda x: json.dumps(x)
    out, val = {}, {}
    for e in edges:
        e["f"], e["t2"] = key(e["from"]), key(e["x"])
        val[e["f"]] = e["from"]; val[e["t2"]] = e["x"]
        out.setdefault(e["f"], []).append(e)
    todo = {s: sorted(es, key=lambda e: json.dumps(e["cmd"], sort_keys=True)) for s, es in out.items()}
    for es in todo.values(): rnd.shuffle(es)
    kind = "M" if edges and isinstance(edges[0]["from"][0], list) else "V"
    lines, steps = [], maxlen
    state = None
    def path(src):                       # one step to a state with transitions left
        for e in out.get(src, []):
            if todo.get(e["t2"]): return [e]
        return None
    def emit(e):
        lines.append(dict(cmd=e["cmd"], errs=e["errs"], s=e["s"],
                          **({"x": e["x"]})))
    while True:
        if state is None or steps >= maxlen:
            left = [s for s in todo if todo[s]]
            if not left: break
            state = rnd.choice(sorted(left)); steps = 0
            lines.append(dict(objs={"o": dict(k=kind, d="i32", x=val[state])}))
        if todo.get(state):
            e = todo[state].pop(); emit(e); state = e["t2"]; steps += 1
        else:
            p = path(state)
            if p is None: state = None; continue
            for e in p: emit(e); state = e["t2"]; steps += 1
    return lines
