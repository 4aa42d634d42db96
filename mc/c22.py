"""C22: what a program is compiled to and what it does depends on its source alone, never on where the memory of the compiler and of the machine lies or what it held before."""
import importlib, glob, hashlib
import fw
from fw import *

# ---------------------------------------------------------------- the layouts: every placement policy of the heap, every fill

DIRS = {"u": "addresses grow", "d": "addresses shrink", "a": "addresses alternate between both ends"}
REUSE = {"r": "freed blocks are used again at once", "n": "freed blocks are never used again"}
FILLS = (0, 85, 170, 255)
STRIDES = (0, 48)

def layouts(deep):
    """Groups of layouts that place every block alike and differ only in what fresh and freed memory holds."""
    for d in DIRS:
        for r in REUSE:
            for s in STRIDES if deep else ((0,) if d == "u" else (48,)):
                yield ["%s%s%d:%d" % (d, r, s, f) for f in FILLS]

def preload():
    so = os.path.join(scratch(), "layout.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "mc", "layout.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode: raise CheckError("layout.c does not compile: " + r.stdout.decode()[-500:])
    return so

# ---------------------------------------------------------------- the programs: cases of all other checks

SOURCES = ["c%02d" % i for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 19, 20, 21, 23)]

class Collector:
    """Stands in for the Explorer of another check and keeps a part of its cases: the first and then every n-th of every family, up to a limit."""

    def __init__(self, per_family, reach):
        self.extra, self.violation, self.opts, self.batch = "", None, (0, 2), 160
        self.lock, self.known, self.families, self.samples, self.outcomes = threading.Lock(), {}, {}, [], set()
        self.per, self.reach, self.got, self.jobs = per_family, reach, {}, []

    def part(self, gen):
        """About per_family cases, spread over the first reach of the family."""
        kept, step = [], 1
        for i, c in enumerate(itertools.islice(gen, self.reach)):
            if i % step: continue
            kept.append(c)
            if len(kept) >= 2 * self.per: kept, step = kept[::2], step * 2
        return kept

    def explore(self, fam, gen, opts=None, batch=None, extra=None):
        self.got.setdefault(self.extra, []).extend(c for c in self.part(gen) if c.key not in self.skip)

    def check(self, fam, jobs, n_levels=1):
        self.jobs += [(fam, k, s, f) for k, s, f in self.part(jobs)]

PATHS = re.compile(r"(\S*/d\d+/)|\bd\d+\b|0x[0-9a-f]+")

def scrub(r):
    return [r.rc, [PATHS.sub("", l) for l in r.lines() if "(+" not in l]]

class Ex22:
    def __init__(self, ex, so, deep):
        self.ex, self.so, self.deep = ex, so, deep

    def fail(self, key, src, opt, exp, got, detail):
        with self.ex.lock:
            v = Violation(key, detail, src, opt, exp, got)
            if COLLECT is not None: COLLECT.append(v)
            elif self.ex.violation is None: self.ex.violation = v

    def env(self, l):
        return {"LD_PRELOAD": self.so, "LAYOUT": l}

    def compile_and_run(self, src, opt, l):
        """The assembly and the result of running it, compiler and machine both in the layout."""
        LAYOUT.env = self.env(l)
        d = new_dir()
        try:
            w = os.path.join(d, "app")
            os.mkdir(w); os.mkdir(os.path.join(d, "o"))
            with open(os.path.join(w, "t.cs"), "w") as f: f.write(src)
            r = run_cmd([APRIL, "compile", "t.cs", SYSTEM, "-O", str(opt), "-o", "../o"], w, 60)
            apl = os.path.join(d, "o", "app.apl")
            if r.rc or r.timeout or not os.path.exists(apl): return None, r
            with open(apl, "rb") as f: b = f.read()
            return b, run_cmd([APRIL, "run", "app.apl", SYSTEM, "-O", str(opt)], os.path.join(d, "o"), 60)
        finally:
            LAYOUT.env = None
            shutil.rmtree(d, ignore_errors=True)

    def batch(self, name, cases, extra, group, k):
        """One program in the layouts of a group."""
        ex = self.ex
        opt = (0, 2)[k & 1]
        cs = cases[::-1] if k & 2 else cases
        src, exp = program(cs, extra), expected(cs)
        first = None
        for l in group:
            if ex.violation: return
            for attempt in (0, 1):                       # a failure counts when it repeats
                b, r = self.compile_and_run(src, opt, l)
                bad = r.rc != 0 or r.timeout or r.lines() != exp
                differs = first is not None and b is not None and b != first[0]
                if not bad and not differs: break
            with ex.lock: ex.programs += 2
            if bad or differs: return self.narrow(name, cs, extra, opt, l, group[0])
            first = first or (b, r)
            with ex.lock:
                ex.runs += len(cs); ex.steps += sum(c.steps for c in cs)
                if not k: ex.outcomes.update(hash(tuple(c.exp)) for c in cs)

    def narrow(self, name, cases, extra, opt, l, l0):
        """Halves the program while it still fails in the layout."""
        def wrong(cs):
            src, exp = program(cs, extra), expected(cs)
            b, r = self.compile_and_run(src, opt, l)
            if r.rc != 0 or r.timeout or r.lines() != exp: return src, exp, r.lines(), "wrong in the layout"
            b0, r0 = self.compile_and_run(src, opt, l0)
            if b is not None and b0 is not None and b != b0:
                at = next((i for i in range(min(len(b), len(b0))) if b[i] != b0[i]), min(len(b), len(b0)))
                return src, ["the same assembly as in layout %s" % l0], ["differs at byte %d" % at], "the assembly depends on what the memory held before"
            return None
        v = wrong(cases) or wrong(cases)
        if v is None:
            with self.ex.lock: self.ex.flaky.append({"cases": [c.key for c in cases][:3], "layout": l})
            return
        while len(cases) > 1:
            h = len(cases) // 2
            for part in (cases[:h], cases[h:]):
                w = wrong(part)
                if w: cases, v = part, w; break
            else: break
        self.fail("%s layout %s: %s" % (name, l, cases[0].key if len(cases) == 1 else "%d cases from %s" % (len(cases), cases[0].key)), v[0], opt, v[1], v[2], {"layout": l, "what": v[3], "env": "LD_PRELOAD=layout.so LAYOUT=" + l})

    def job(self, name, fam, key, steps, fn, ls):
        """A program that another check judges: accepted or rejected as it should, with the same messages in all layouts."""
        ex, first = self.ex, None
        for l in ls:
            if ex.violation: return
            LAYOUT.env, LAYOUT.log = self.env(l), []
            try:
                v = fn()
                log = [scrub(r) for r in LAYOUT.log]
                if v is not None or first is not None and log != first[0]:
                    LAYOUT.log = []
                    v = fn()
                    log = [scrub(r) for r in LAYOUT.log]
            finally: LAYOUT.env = LAYOUT.log = None
            if v is not None: return self.fail("%s layout %s: %s" % (name, l, key), v.get("src") or "", v.get("opt", 0), v.get("exp"), v.get("got"), v.get("detail"))
            if first is not None and log != first[0]:
                return self.fail("%s layout %s: %s" % (name, l, key), "", 0, first[0], log, "other messages than in layout %s" % first[1])
            first = first or (log, l)
            with ex.lock: ex.programs += len(log); ex.runs += 1; ex.steps += steps

def run(ex, tier):
    deep = tier == "thorough"
    so = preload()
    groups = list(layouts(deep))
    x = Ex22(ex, so, deep)
    with ThreadPoolExecutor(JOBS) as pool:
        futs = []
        for name in SOURCES:
            if ONLY and ONLY not in name: continue
            t = time.time()
            c = Collector(60 if deep else 4, 20000 if deep else 1500)
            c.skip = {f["case"] for f in known_findings(name.upper())}
            importlib.import_module(name).run(c, "quick")
            n = 0
            for extra, cases in c.got.items():
                n += len(cases)
                for i in range(0, len(cases), 160):
                    part = cases[i:i + 160]
                    for k, g in enumerate(groups): futs.append(pool.submit(x.batch, name, part, extra, g, k))
            for k, (fam, key, steps, fn) in enumerate(c.jobs):
                n += 1
                futs.append(pool.submit(x.job, name, fam, key, steps, fn, [l for g in groups for l in g][k % 3::3] if not deep else [l for g in groups for l in g]))
            ex.cases += n
            ex.states += n * len(groups) * len(FILLS)
            ex.families[name] = {"programs": n, "layouts": sum(map(len, groups)), "generated_s": round(time.time() - t, 1)}
            ex.samples += [{"family": name, "case": q.key[:200]} for cs in c.got.values() for q in cs[:2]][:2]
        for f in futs: f.result()

if __name__ == "__main__":
    main("C22", run, "exhaustive product of programs and heap layouts: every program runs under every placement policy (direction x reuse x distance) and every fill of fresh and freed memory, by a controlled allocator under the real compiler and machine; output compared with the reference models of the other checks, assemblies compared byte by byte between fills, messages between layouts")
