"""Exhaustive bounded exploration of april programs against reference models.

A *case* is one small april program fragment plus the output the reference model says
it must produce.  A check enumerates every case of its bounded space, packs them into
batch programs (many static methods, one marker line before each), compiles and runs
the batches with the april built from /repo's working tree, and compares every output
line.  Nothing is sampled: the enumerators are plain nested products.
"""
import os, sys, re, json, time, shutil, signal, subprocess, tempfile, threading, queue, itertools, resource
from concurrent.futures import ThreadPoolExecutor

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
APRIL = REPO + "/bin/april"
SYSTEM = REPO + "/System.apl"
TIER = "quick"
JOBS = max(2, min(8, os.cpu_count() or 2))
ANSI = re.compile(r"\x1b\[[0-9;]*m")
LOC = re.compile(r" \[[A-Za-z_0-9./]+\.(cpp|h):\d+\]$")

_scratch = None
OPTS = tuple(int(c) for c in next((a[7:] for a in sys.argv if a.startswith("--opts=")), "02"))
ONLY = next((a[7:] for a in sys.argv if a.startswith("--only=")), None)
STRIDE = int(next((a[9:] for a in sys.argv if a.startswith("--stride=")), "1"))     # development only: every n-th case
COLLECT = [] if "--collect" in sys.argv else None

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="aprilmc.")
    return _scratch

def cleanup():
    if _scratch and os.path.isdir(_scratch):
        shutil.rmtree(_scratch, ignore_errors=True)

class CheckError(Exception):
    pass

def build():
    """Builds april from /repo's working tree."""
    t = time.time()
    log = os.path.join(scratch(), "build.log")
    with open(log, "wb") as f:
        r = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=f, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=840)
    if r.returncode != 0:
        sys.stderr.write(open(log, errors="replace").read()[-3000:])
        raise CheckError("the build of /repo failed")
    return time.time() - t

# ---------------------------------------------------------------- running programs

class Result:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def lines(self):
        ls = [x[:-1] if x.endswith("\r") else x for x in self.out.split("\n")]   # either line ending
        if ls and ls[-1] == "":
            ls.pop()
        return [LOC.sub("", x) if x.startswith("Uncaught Exception:") else x for x in ls]

    def brief(self):
        return {"rc": self.rc, "timeout": self.timeout, "stdout": self.out[:2000], "stderr": self.err[:1000]}

def _limits():
    resource.setrlimit(resource.RLIMIT_FSIZE, (96 << 20, 96 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

_dirno = itertools.count()

def new_dir():
    d = os.path.join(scratch(), "d%d" % next(_dirno))
    os.mkdir(d)
    return d

# The contents of fresh and freed heap memory: left alone at level 0, filled with a pattern at the other levels.
FILL = {"1": "90", "2": "165", "3": "254"}

LAYOUT = threading.local()          # .env: the memory layout of what this thread runs; .log: the results of what it ran

def run_cmd(args, cwd, timeout=20):
    r = _run_cmd(args, cwd, timeout)
    if getattr(LAYOUT, "log", None) is not None: LAYOUT.log.append(r)
    return r

def _run_cmd(args, cwd, timeout):
    env = dict(os.environ)
    env["MALLOC_PERTURB_"] = FILL.get(args[args.index("-O") + 1], "0") if "-O" in args else "0"
    env.update(getattr(LAYOUT, "env", None) or {})
    fo = os.path.join(cwd, ".out")
    fe = os.path.join(cwd, ".err")
    to = False
    with open(fo, "wb") as o, open(fe, "wb") as e:
        p = subprocess.Popen(args, stdout=o, stderr=e, stdin=subprocess.DEVNULL, cwd=cwd,
                             preexec_fn=_limits, start_new_session=True, env=env)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = -9
    with open(fo, "rb") as f:
        out = f.read(64 << 20)
    with open(fe, "rb") as f:
        err = f.read(1 << 16)
    return Result(rc, ANSI.sub("", out.decode("utf-8", "replace")), ANSI.sub("", err.decode("utf-8", "replace")), to)

def run_source(src, opt=0, timeout=20):
    d = new_dir()
    try:
        with open(os.path.join(d, "t.cs"), "w") as f:
            f.write(src)
        return run_cmd([APRIL, "run", "-O", str(opt), "t.cs", SYSTEM], d, timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- cases

class Case:
    """key: readable identity; body: statements of a static method; exp: expected lines;
    members: further members of the class holding the method; decls: types.
    '@' in any of them is replaced by a number unique to the case."""
    __slots__ = ("key", "body", "exp", "members", "decls", "steps", "opts")

    def __init__(self, key, body, exp, members="", decls="", steps=None, opts=None):
        self.key, self.body, self.exp, self.members, self.decls = key, body, exp, members, decls
        self.steps = len(exp) if steps is None else steps
        self.opts = opts

PER_CLASS = 40

def program(cases, extra=""):
    """One program running the cases in order; returns its source."""
    out = ["import System;\nusing System;\n", extra]
    main = []
    for i in range(0, len(cases), PER_CLASS):
        cls = "K%d" % (i // PER_CLASS)
        out.append("public class %s {\n" % cls)
        dec = []
        for j, c in enumerate(cases[i:i + PER_CLASS], i):
            n = str(j)
            if c.members:
                out.append(c.members.replace("@", n) + "\n")
            out.append("public static void C%s() {\n%s\n}\n" % (n, c.body.replace("@", n).replace("\x02", "@")))
            if c.decls:
                dec.append(c.decls.replace("@", n) + "\n")
            main.append('Console.WriteLine("#%s"); %s.C%s();\n' % (n, cls, n))
        out.append("}\n")
        out.extend(dec)
    # the entry point is split so that no method gets too long
    out.append("public class P {\n")
    parts = [main[i:i + 60] for i in range(0, len(main), 60)]
    for k, p in enumerate(parts):
        out.append("static void M%d() {\n%s}\n" % (k, "".join(p)))
    out.append("[EntryPoint]\npublic static void Main() {\n")
    out.extend("M%d();\n" % k for k in range(len(parts)))
    out.append("}\n}\n")
    return "".join(out)

def expected(cases):
    ls = []
    for j, c in enumerate(cases):
        ls.append("#%d" % j)
        ls.extend(c.exp)
    return ls

def segments(lines):
    seg, cur = {}, None
    for l in lines:
        if l[:1] == "#" and l[1:].isdigit():
            cur = int(l[1:])
            seg[cur] = []
        elif cur is not None:
            seg[cur].append(l)
    return seg

class Violation:
    def __init__(self, key, detail, src, opt, exp, got):
        self.key, self.detail, self.src, self.opt, self.exp, self.got = key, detail, src, opt, exp, got

class Explorer:
    """Runs cases in batches on all cores and stops at the first confirmed violation."""

    def __init__(self, prop, opts=OPTS, batch=160, extra="", known=()):
        self.prop, self.opts, self.batch, self.extra = prop, opts, batch, extra
        self.lock = threading.Lock()
        self.violation = None
        self.cases = self.runs = self.steps = self.programs = self.states = 0
        self.outcomes = set()
        self.families = {}
        self.flaky = []
        self.samples = []
        self.seen_families = {}
        self.known = {f["case"]: f for f in known}
        self.known_hit = []
        self.t0 = time.time()

    # -- one batch

    def _run(self, cases, opt, timeout):
        src = program(cases, self.extra)
        r = run_source(src, opt, timeout)
        with self.lock:
            self.programs += 1
        ok = r.rc == 0 and not r.timeout and r.lines() == expected(cases)
        return ok, r, src

    def _batch(self, fam, cases, opt):
        if self.violation:
            return
        ok, r, src = self._run(cases, opt, 60)
        if ok:
            with self.lock:
                self.runs += len(cases)
                self.steps += sum(c.steps for c in cases)
                for c in cases:
                    if len(self.outcomes) < 2000000:
                        self.outcomes.add(hash(tuple(c.exp)))
            return
        self._narrow(cases, opt, r, src)

    def _narrow(self, cases, opt, r, src):
        """Finds the first failing case, and confirms it by running it alone again."""
        if COLLECT is not None and len(cases) > 1:      # debugging aid: list all failing cases
            for c in cases:
                ok, r1, s1 = self._run([c], opt, 60)
                if not ok:
                    self._report(c.key, opt, s1, c, r1)
            return
        got = segments(r.lines())
        suspects = [j for j, c in enumerate(cases) if got.get(j) != c.exp][:3]
        for j in suspects:
            if self.violation:
                return
            ok, r1, s1 = self._run([cases[j]], opt, 60)
            if not ok:
                ok2, r2, s2 = self._run([cases[j]], opt, 60)
                if not ok2:
                    return self._report(cases[j].key, opt, s1, cases[j], r1)
        if len(cases) > 1 and not self.violation:
            # not visible alone: bisect, keeping the half that still fails
            h = len(cases) // 2
            for part in (cases[:h], cases[h:]):
                ok, r1, s1 = self._run(part, opt, 60)
                if not ok:
                    return self._narrow(part, opt, r1, s1)
            # only the whole batch shows it
            for _ in range(2):
                ok, r1, s1 = self._run(cases, opt, 120)
                if not ok:
                    exp = expected(cases)
                    gl = r1.lines()
                    k = next((i for i in range(min(len(exp), len(gl))) if exp[i] != gl[i]), min(len(exp), len(gl)))
                    cur = 0
                    for l in exp[:k + 1]:
                        if l[:1] == "#" and l[1:].isdigit():
                            cur = int(l[1:])
                    return self._report("batch of %d cases, first difference in: %s" % (len(cases), cases[cur].key),
                                        opt, s1, None, r1, exp)
        with self.lock:
            self.flaky.append({"cases": [c.key for c in cases][:3], "opt": opt, "first": r.brief()})
            # a wrong run that does not repeat is still a wrong run; a killed or slow one is not
            wrong = [f for f in self.flaky if "first" in f and not f["first"]["timeout"] and f["first"]["rc"] != -9]
            if len(wrong) >= 3 and self.violation is None and COLLECT is None:
                self.violation = Violation("batch of %d cases (differs from run to run): %s" % (len(cases), cases[0].key), r.brief(), src, opt, expected(cases), r.lines())

    def _report(self, key, opt, src, case, r, exp=None):
        exp = exp if exp is not None else ["#0"] + case.exp
        with self.lock:
            v = Violation(key, r.brief(), src, opt, exp, r.lines())
            if COLLECT is not None:
                COLLECT.append(v)
            elif self.violation is None:
                self.violation = v

    def _known(self, c, opts):
        """A case listed as a known finding runs alone; failing in any other way than listed counts."""
        f = self.known[c.key]
        for o in opts:
            ok, r, s = self._run([c], o, 60)
            got = r.lines()[1:]
            if ok:
                continue
            if got == f["got"]:
                if c.key not in self.known_hit:
                    self.known_hit.append(c.key)
            else:
                self._report(c.key, o, s, c, r)

    # -- families

    def explore(self, fam, gen, opts=None, batch=None, extra=None):
        if ONLY and ONLY not in fam:
            return
        """Explores every case of a generator."""
        if self.violation:
            return
        opts = opts or self.opts
        batch = batch or self.batch
        n = 0
        sem = threading.Semaphore(JOBS * 3)
        futs = []

        def job(cs, o):
            try:
                self._batch(fam, cs, o)
            finally:
                sem.release()

        t = time.time()
        with ThreadPoolExecutor(JOBS) as ex:
            cur = []

            def flush():
                for k, o in enumerate(opts):
                    sem.acquire()
                    # every other level runs the cases in reverse: what a method does may not depend on its predecessors
                    futs.append(ex.submit(job, cur[::-1] if k & 1 else list(cur), o))
                cur.clear()

            size = 0
            for c in itertools.islice(gen, 0, None, STRIDE):
                if self.violation:
                    break
                if n == 0 or (n & (n - 1)) == 0 and len(self.samples) < 40:
                    self.samples.append({"family": fam, "case": c.key[:300], "expected": c.exp[:6]})
                n += 1
                self.states += c.steps + 1
                if c.key in self.known:
                    self._known(c, opts)
                    continue
                cur.append(c)
                size += len(c.body) + len(c.members) + len(c.decls)
                if len(cur) >= batch or size > 90000:
                    flush()
                    size = 0
            if cur and not self.violation:
                flush()
        for f in futs:
            f.result()
        self.cases += n
        self.families[fam] = {"cases": n, "levels": ["O%d" % o if isinstance(o, int) else "O%s %s, order %s" % o for o in opts], "wall_s": round(time.time() - t, 1)}

    # -- whole-program cases (not batchable)

    def check(self, fam, jobs, n_levels=1):
        """jobs: iterable of (key, steps, fn); fn() returns None or a Violation-like dict
        {src, opt, exp, got, detail}.  A failing job is run a second time before it counts."""
        if self.violation:
            return
        t = time.time()
        n = 0

        def job(key, steps, fn):
            if self.violation:
                return
            v = fn()
            if v is not None:
                v = fn()
                if v is None:
                    with self.lock:
                        self.flaky.append({"cases": [key]})
                    return
                with self.lock:
                    if key in self.known and v.get("got") == self.known[key]["got"]:
                        self.known_hit.append(key)
                    elif COLLECT is not None:
                        COLLECT.append(Violation(key, v.get("detail"), v.get("src", ""), v.get("opt", 0), v.get("exp"), v.get("got")))
                    elif self.violation is None:
                        self.violation = Violation(key, v.get("detail"), v.get("src", ""), v.get("opt", 0), v.get("exp"), v.get("got"))
                return
            with self.lock:
                self.runs += 1
                self.programs += 1
                self.steps += steps

        with ThreadPoolExecutor(JOBS) as ex:
            futs = []
            for key, steps, fn in itertools.islice(jobs, 0, None, STRIDE):
                if n == 0 or (n & (n - 1)) == 0 and len(self.samples) < 40:
                    self.samples.append({"family": fam, "case": key[:300]})
                n += 1
                self.states += steps + 1
                futs.append(ex.submit(job, key, steps, fn))
                if len(futs) > 64:
                    futs.pop(0).result()
                if self.violation:
                    break
            for f in futs:
                f.result()
        self.cases += n
        self.families[fam] = {"cases": n, "wall_s": round(time.time() - t, 1)}


# ---------------------------------------------------------------- driver

def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    d = json.load(open(path))
    return [f for f in d.get("findings", []) if f["property"] == prop]

def main(prop, run, technique, assumptions=()):
    """run(ex, tier) explores everything of the property with the Explorer ex."""
    global TIER
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    TIER = tier
    t0 = time.time()
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rc = 2
    try:
        b = 0.0
        if "--no-build" not in sys.argv:
            b = build()
        kf = known_findings(prop)
        ex = Explorer(prop, known=kf)
        run(ex, tier)
        for v in COLLECT or ():
            k = next((i for i in range(min(len(v.exp), len(v.got))) if v.exp[i] != v.got[i]), -1)
            print("FAIL O%s %s | %s" % (v.opt, v.key, (v.exp[k], v.got[k]) if k >= 0 else v.got[-1:]))
        for f in kf:
            if f["case"] in ex.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        viol = []
        if ex.violation:
            v = ex.violation
            rd = os.path.join(VERIF, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, prop + ".cs")
            with open(rp, "w") as f:
                f.write("// property %s, case: %s\n" % (prop, v.key.replace("\n", " ")))
                f.write("// run: cd $(mktemp -d) && %s run -O %s %s %s\n" % (APRIL, v.opt, rp, SYSTEM))
                f.write("// expected: %s\n" % json.dumps(v.exp)[:20000])
                f.write("// got: %s\n" % json.dumps(v.got)[:20000])
                f.write("// detail: %s\n" % json.dumps(v.detail)[:4000])
                f.write(v.src)
            print("case: %s (O%s)" % (v.key, v.opt))
            print("expected:", json.dumps(v.exp)[:1500])
            print("got:     ", json.dumps(v.got)[:1500])
            viol = [{"case": v.key, "opt": v.opt, "expected": v.exp and v.exp[:50], "got": v.got and v.got[:50]}]
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            rc = 1
        else:
            rc = 0
        ev = {
            "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "model_checking",
            "coverage": {
                "technique": technique,
                "states": ex.states,
                "transitions": ex.steps,
                "programs_enumerated": ex.cases,
                "processes": ex.programs,
                "distinct_outcomes": len(ex.outcomes),
                "traces_validated_against_impl": ex.runs,
                "exhaustive": ex.violation is None,
                "families": ex.families,
                "samples": ex.samples[:40],
                "known_findings_seen": list(ex.known_hit),
                "unreproduced": ex.flaky[:5],
                "build_s": round(b, 1),
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - t0, 1),
            "violations": len(viol),
            "violation_details": viol,
        }
        with open(os.path.join(ev_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d programs, %d executions, %d transitions, %d outcomes, %.1f s (build %.1f s)%s" % (
            prop, tier, ex.cases, ex.runs, ex.steps, len(ex.outcomes), time.time() - t0, b,
            "" if not ex.flaky else ", unreproduced: %d" % len(ex.flaky)))
    except CheckError as e:
        print("ERROR:", e)
        rc = 2
    finally:
        cleanup()
    sys.exit(rc)

if __name__ == "__main__":
    # setup: nothing to build, the checks build /repo themselves; only see that the tools are there
    assert shutil.which("bash") and os.path.exists("/opt/vp/build.sh")
    print("ok")
