"""C18: what a program does depends neither on how its types are spread over files and assemblies nor on whether it runs from source or from compiled assemblies."""
import itertools, os, shutil
import fw, kinds
from fw import Case, Explorer, Result, run_cmd, new_dir, APRIL, SYSTEM, main, program, expected

LEVELS = ("l1", "l2", "app")
KD = kinds.DECLS.strip() + "\n"

def head(deps):
    return "import System;\n" + "".join("import %s;\n" % d for d in deps) + "using System;\n" + "".join("using %s;\n" % d for d in deps)

def run_assemblies(asms, opt, via, order=0, timeout=60):
    """asms: [(name, [file sources])] in the order of their dependencies, the last one has the entry point.
    via 's': the last one runs from source; 'a': all run from compiled files.  order: of the command line."""
    d = new_dir()
    try:
        out = os.path.join(d, "o")
        os.mkdir(out)
        done = []
        def perm(fs):
            ps = list(itertools.permutations(fs)) if len(fs) < 5 else [fs]
            return list(ps[order % len(ps)])
        for i, (name, files) in enumerate(asms):
            w = os.path.join(d, name)
            os.mkdir(w)
            fs = []
            for k, src in enumerate(files):
                fn = "f%d.cs" % k
                fs.append(fn)
                with open(os.path.join(w, fn), "w") as f:
                    f.write(src)
            last = i == len(asms) - 1
            cmd = "run" if last and via == "s" else "compile"
            r = run_cmd([APRIL, cmd] + perm(fs + ["../o/%s.apl" % x for x in done] + [SYSTEM]) + ["-O", str(opt), "-o", "../o"], w, timeout)
            if last and via == "s":
                return r
            if r.rc or r.timeout or not os.path.exists(os.path.join(out, name + ".apl")):
                return Result(r.rc or 97, "compile %s: %s" % (name, r.out), r.err, r.timeout)
            done.append(name)
        shutil.move(out, os.path.join(d, "r"))          # where it was compiled may not matter
        return run_cmd([APRIL, "run"] + perm(["%s.apl" % x for x in reversed(done)] + [SYSTEM]) + ["-O", str(opt)], os.path.join(d, "r"), timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Ex18(Explorer):
    """decls of a case: (assembly, text) pairs; the cases themselves are in app.  opt: (level, via, order)."""

    def _run(self, cases, opt, timeout):
        o, via, order = opt
        text = {l: [] for l in LEVELS}
        text["l1"].append(KD)
        apps = []
        for j, c in enumerate(cases):
            for l, t in c.decls:
                text[l].append(t.replace("@", str(j)) + "\n")
            apps.append(Case(c.key, c.body, c.exp, c.members))
        asms, deps = [], []
        for l in LEVELS[:2]:
            if text[l]:
                asms.append((l, [head(deps) + "".join(text[l])]))
                deps.append(l)
        p = program(apps, "\x01")
        h, rest = p.split("\x01")
        asms.append(("app", [head(deps) + "".join(text["app"]) + rest]))
        r = run_assemblies(asms, o, via, order, timeout)
        with self.lock:
            self.programs += 1
        ok = r.rc == 0 and not r.timeout and r.lines() == expected(cases)
        return ok, r, "".join("// ---- assembly %s\n%s" % (n, "".join(f)) for n, f in asms)

def case(key, body, exp, decls, members=""):
    c = Case(key, body, exp, members)
    c.decls = Decls(decls)
    return c

class Decls(list):
    """length: of the text, as the explorer counts it"""
    def __len__(self): return sum(len(t) for _, t in self)

FIELD = ["byte", "short", "int", "long", "float", "double", "bool", "char", "string", "En", "S1", "S3", "S12", "SN", "Rf", "obj", "arr"]

# ---------------------------------------------------------------- fields and layouts

def fields(n, alphabet):
    """A type of l1 with a sequence of fields: what one assembly writes the other reads; derived types of l2 and app add fields."""
    for ks in itertools.product(alphabet, repeat=n):
        for kind in ("class", "struct"):
            fs = "".join("public %s f%d; " % (kinds.T(k), i) for i, k in enumerate(ks))
            dump = "".join(kinds.show(k, "o.f%d" % i) for i, k in enumerate(ks))
            put = "".join("o.f%d = %s; " % (i, kinds.val(k, i)[0]) for i, k in enumerate(ks))
            put2 = "".join("o.f%d = %s; " % (i, kinds.val(k, i + 1)[0]) for i, k in enumerate(ks))
            v1 = sum((kinds.val(k, i)[1] for i, k in enumerate(ks)), [])
            v2 = sum((kinds.val(k, i + 1)[1] for i, k in enumerate(ks)), [])
            d1 = "public %s T@ { %spublic void Show() { T@ o = this; %s } public void Put() { %s } }\npublic class U@ { public static T@ New() { T@ o = new T@(); %s return o; } public static void Dump(T@ o) { %s } }" % (
                kind, fs, dump, put2.replace("o.f", "f"), put, dump)
            ds = [("l1", d1)]
            body = "T@ o = new T@(); %s U@.Dump(o); %s o.Show(); o.Put(); %s T@ p = U@.New(); %s" % (put, dump, dump, dump.replace("o.f", "p.f"))
            exp = v1 * 3 + v2 + v1
            if kind == "struct":
                body = body.replace("o.Show();", "")        # 'this' of a struct is out of the alphabet
                ds[0] = ("l1", d1.replace("public void Show() { T@ o = this; %s }" % dump, ""))
                exp = v1 * 2 + v2 + v1
                # in an array, in a class of l2 and a class of app
                ds.append(("l2", "public class H@ { public byte a; public T@ t; public int b; }"))
                body += "T@[] r = new T@[3]; r[1] = o; r[2] = p; U@.Dump(r[1]); U@.Dump(r[2]); H@ h = new H@(); h.a = (byte)9; h.b = 77; h.t = p; U@.Dump(h.t); Console.WriteLine(h.a); Console.WriteLine(h.b);"
                exp += v2 + v1 + v1 + ["9", "77"]
            else:
                ds.append(("l2", "public class D@ : T@ { public byte g; public long h; public int Sum() { return (int)h + 1; } }"))
                ds.append(("app", "public class E@ : D@ { public short k; public double m; }"))
                body += "E@ e = new E@(); e.g = (byte)200; e.h = 61L; e.k = (short)(-7); e.m = 2.5; e.Put(); U@.Dump(e); Console.WriteLine(e.g); Console.WriteLine(e.h); Console.WriteLine(e.k); Console.WriteLine(e.m); Console.WriteLine(e.Sum()); D@ d = e; d.Put(); d.Show();"
                exp += v2 + ["200", "61", "-7", "2.5", "62"] + v2
            yield case("fields %s {%s}" % (kind, ", ".join(ks)), body, exp, ds)

# ---------------------------------------------------------------- virtual methods

def virtuals(k, methods):
    """A chain of k classes spread over the assemblies in every monotone way; each declares, overrides or leaves each method."""
    for where in itertools.combinations_with_replacement(range(3), k):
        # a method of each class: per virtual method the class which declares it and the set of classes overriding it
        choices = []
        for m in range(methods):
            ch = []
            for decl in range(k):
                for ov in itertools.product((0, 1), repeat=k - decl - 1):
                    ch.append((decl, ov))
            choices.append(ch)
        for pick in itertools.product(*choices):
            ds, impl = [], [[None] * k for _ in range(methods)]
            for c in range(k):
                ms = []
                for m, (decl, ov) in enumerate(pick):
                    if c < decl:
                        continue
                    if c == decl or ov[c - decl - 1]:
                        impl[m][c] = (m + 1) * 10 + c
                        ms.append("public %s int F%d(int x) { return x + %d; } " % ("virtual" if c == decl else "override", m, impl[m][c]))
                    else:
                        impl[m][c] = impl[m][c - 1]
                ds.append((LEVELS[where[c]], "public class V%d_@%s { %s}" % (c, " : V%d_@" % (c - 1) if c else "", "".join(ms))))
            # a caller for each static type in the first and the last assembly that can see it
            body, exp, callers = [], [], {}
            for c in range(k):
                for lv in sorted({where[c], 2}):
                    calls = "".join("Console.WriteLine(o.F%d(100)); " % m for m, (decl, _) in enumerate(pick) if decl <= c)
                    ds.append((LEVELS[lv], "public class U%d_%s_@ { public static void Call(V%d_@ o) { %s} }" % (c, LEVELS[lv], c, calls)))
                    callers.setdefault(c, []).append("U%d_%s_@" % (c, LEVELS[lv]))
            for dyn in range(k):
                body.append("V%d_@ o%d = new V%d_@();" % (dyn, dyn, dyn))
                for st in range(dyn + 1):
                    for u in callers[st]:
                        body.append("%s.Call(o%d);" % (u, dyn))
                        exp += [str(100 + impl[m][dyn]) for m, (decl, _) in enumerate(pick) if decl <= st]
            yield case("virtual %s %s" % ("<".join(LEVELS[w] for w in where), pick), " ".join(body), exp, ds)

def interfaces():
    """An interface, the class that implements it, a derived class, and the caller in every monotone placement; every order of the methods, with every way to implement them."""
    for wi, wc, wd in itertools.combinations_with_replacement(range(3), 3):
        for order in itertools.permutations("FGH"):
            for how in itertools.product(("plain", "virtual", "inherited", "override"), repeat=2):
                pl = {"F": how[0], "G": how[1], "H": "plain"}
                idecl = "public interface I@ { %s}" % "".join("int %s(int x); " % m for m in "FGH")
                base, cls, der, val = "", "", "", {}
                for n, m in enumerate(order):
                    v = 10 * (n + 1)
                    h = pl[m]
                    if h == "inherited":
                        base += "public int %s(int x) { return x + %d; } " % (m, v)
                        val[m] = (v, v)
                    elif h == "plain":
                        cls += "public int %s(int x) { return x + %d; } " % (m, v)
                        val[m] = (v, v)
                    elif h == "virtual":
                        cls += "public virtual int %s(int x) { return x + %d; } " % (m, v)
                        der += "public override int %s(int x) { return x + %d; } " % (m, v + 5)
                        val[m] = (v, v + 5)
                    else:
                        base += "public virtual int %s(int x) { return x + %d; } " % (m, v + 7)
                        cls += "public override int %s(int x) { return x + %d; } " % (m, v)
                        val[m] = (v, v)
                ds = [(LEVELS[wi], idecl), (LEVELS[wi], "public class B@ { %s}" % base), (LEVELS[wc], "public class X@ : B@, I@ { %s}" % cls), (LEVELS[wd], "public class Y@ : X@ { %s}" % der)]
                call = "".join("Console.WriteLine(i.%s(100)); " % m for m in "FGH")
                ds.append((LEVELS[wi], "public class U@ { public static void Call(I@ i) { %s} }" % call))
                body = "U@.Call(new X@()); U@.Call(new Y@()); I@ i = new X@(); %s i = new Y@(); %s" % (call, call)
                e0 = [str(100 + val[m][0]) for m in "FGH"]
                e1 = [str(100 + val[m][1]) for m in "FGH"]
                yield case("interface %s<%s<%s %s %s" % (LEVELS[wi], LEVELS[wc], LEVELS[wd], "".join(order), how), body, e0 + e1 + e0 + e1, ds)

# ---------------------------------------------------------------- signatures

MODES = ("", "ref ", "out ")

def signatures(n, alphabet):
    """A static and an instance method of l1 with every signature, called from app (through l2 for half of them)."""
    for ks in itertools.product(alphabet, repeat=n):
        for modes in itertools.product(MODES, repeat=n):
            for ret in (None,) + tuple(sorted(set(ks))):
                ps = ", ".join("%s%s p%d" % (m, kinds.T(k), i) for i, (k, m) in enumerate(zip(ks, modes)))
                code, seen, after = "", [], []
                for i, (k, m) in enumerate(zip(ks, modes)):
                    if m != "out ":
                        code += kinds.show(k, "p%d" % i)
                        seen += kinds.val(k, i)[1]
                    if m:
                        code += "p%d = %s; " % (i, kinds.val(k, i + 1)[0])
                        after += kinds.val(k, i + 1)[1]
                    else:
                        code += "p%d = %s; " % (i, kinds.val(k, i + 1)[0])
                        after += kinds.val(k, i)[1]
                if ret:
                    code += "return %s;" % kinds.val(ret, 1)[0]
                sig = "%s M(%s) { %s }" % (kinds.T(ret) if ret else "void", ps, code)
                ds = [("l1", "public class A@ { public static %s } public class B@ { public int z; public %s }" % (sig, sig))]
                var = "".join("%s v%d%s; " % (kinds.T(k), i, "" if m == "out " else " = " + kinds.val(k, i)[0]) for i, (k, m) in enumerate(zip(ks, modes)))
                args = ", ".join("%sv%d" % (m, i) for i, m in enumerate(modes))
                dump = "".join(kinds.show(k, "v%d" % i) for i, k in enumerate(ks))
                def once(call, sfx):
                    b = var + (kinds.show(ret, call) if ret else call + ";") + dump
                    for i in range(n):
                        b = b.replace("v%d" % i, "v%s%d" % (sfx, i))
                    return b
                if ret:
                    e = seen + kinds.val(ret, 1)[1] + after
                else:
                    e = seen + after
                body = once("A@.M(%s)" % args, "a") + "B@ b = new B@(); " + once("b.M(%s)" % args, "b")
                yield case("signature %s(%s)" % (ret, ", ".join(m + k for k, m in zip(ks, modes))), body, e + e, ds)

def overloads(alphabet):
    """Two overloads of l1: the one whose parameter has the type of the argument is called."""
    for a, b in itertools.permutations(alphabet, 2):
        for st in ("static ", ""):
            ds = [("l1", "public class A@ { public %sint M(%s p) { return 1; } public %sint M(%s p) { return 2; } }" % (st, kinds.T(a), st, kinds.T(b)))]
            o = "A@" if st else "o"
            body = "" if st else "A@ o = new A@(); "
            body += "%s x = %s; %s y = %s; Console.WriteLine(%s.M(x)); Console.WriteLine(%s.M(y));" % (kinds.T(a), kinds.val(a, 0)[0], kinds.T(b), kinds.val(b, 0)[0], o, o)
            yield case("overload %s%s, %s" % (st, a, b), body, ["1", "2"], ds)

# ---------------------------------------------------------------- exceptions, casts, members

def exceptions():
    """A chain of exception classes over the assemblies: thrown in any, caught as any in any."""
    for w in itertools.combinations_with_replacement(range(3), 3):
        for th in range(3):
            for catch in itertools.permutations(range(3), 2):
                for lv in range(w[th], 3):
                    ds = [(LEVELS[w[i]], "public class X%d_@ : %s { public int c%d; }" % (i, "X%d_@" % (i - 1) if i else "Exception", i)) for i in range(3)]
                    ds.append((LEVELS[lv], "public class T@ { public static void Go(int c) { X%d_@ x = new X%d_@(); %s throw x; } }" % (th, th, "".join("x.c%d = c + %d; " % (i, i) for i in range(th + 1)))))
                    body = "try { try { T@.Go(40); } "
                    hit = None
                    for n, c in enumerate(catch):
                        body += "catch (X%d_@ e) { Console.WriteLine(\"%d\"); Console.WriteLine(e.c%d); } " % (c, n, c)
                        if hit is None and c <= th:
                            hit = (str(n), str(40 + c))
                    body += "finally { Console.WriteLine(\"f\"); } } catch (Exception e) { Console.WriteLine(\"outer\"); }"
                    yield case("exception %s thrown X%d in %s, caught %s" % ("<".join(LEVELS[x] for x in w), th, LEVELS[lv], catch), body, (list(hit) if hit else []) + ["f"] + ([] if hit else ["outer"]), ds)

def casts():
    """is, as and casts between a class, an interface and two derived classes placed over the assemblies, asked in every assembly that can."""
    for w in itertools.combinations_with_replacement(range(3), 3):
        for other in range(w[1], 3):
            names = ["A@", "I@", "B@", "C@", "O@"]
            lv = {"A@": w[0], "I@": w[0], "B@": w[1], "C@": w[2], "O@": other}
            sup = {"A@": {"A@"}, "B@": {"A@", "I@", "B@"}, "C@": {"A@", "I@", "B@", "C@"}, "O@": {"A@", "O@"}, "I@": set()}
            ds = [(LEVELS[lv["A@"]], "public interface I@ { int Z(); } public class A@ { public int a; }"), (LEVELS[lv["B@"]], "public class B@ : A@, I@ { public int Z() { return 3; } }"),
                  (LEVELS[lv["C@"]], "public class C@ : B@ { public int c; }"), (LEVELS[other], "public class O@ : A@ { public long o; }")]
            for ask in range(lv["B@"], 3):
                qs = [n for n in names if lv[n] <= ask]
                code = "".join("Console.WriteLine(o is %s); Console.WriteLine((o as %s) == null); try { %s q%d = (%s)o; Console.WriteLine(1); } catch (InvalidCastException e) { Console.WriteLine(0); } " % (n, n, n, i, n) for i, n in enumerate(qs))
                d2 = ds + [(LEVELS[ask], "public class U@ { public static void Ask(object o) { %s } }" % code)]
                body, exp = "", []
                for n in ("A@", "B@", "C@", "O@"):
                    body += "U@.Ask(new %s()); " % n
                    for q in qs:
                        y = q in sup[n]
                        exp += [str(y), str(not y), "1" if y else "0"]
                body += "U@.Ask(null);"
                for q in qs:
                    exp += ["False", "True", "1"]
                yield case("casts %s other %s asked in %s" % ("<".join(LEVELS[x] for x in w), LEVELS[other], LEVELS[ask]), body, exp, d2)

def members(alphabet):
    """Properties, constructors with arguments, arrays, delegates and null references across assemblies, for every kind."""
    for k in alphabet:
        T = kinds.T(k)
        (a, ea), (b, eb) = kinds.val(k, 0), kinds.val(k, 1)
        for mid in ("l1", "l2"):
            ds = [("l1", "public class A@ { %s f; public A@(%s p) { f = p; } public %s P { get { return f; } set { f = value; } } public %s Get() { return f; } public virtual %s Vg(%s x) { return x; } public static %s Id(%s x) { return x; } }" % ((T,) * 8)),
                  (mid, "public class H@ { public A@ m; public %s[] r; public static A@ Mk(%s p) { return new A@(p); } }" % (T, T))]
            D = "Delegate<%s" % T
            body = ("A@ o = new A@(%s); %s o.P = %s; %s %s A@ q = H@.Mk(%s); %s " % (a, kinds.show(k, "o.P"), b, kinds.show(k, "o.P"), kinds.show(k, "o.Get()"), a, kinds.show(k, "q.P")) +
                    "H@ h = new H@(); h.m = q; h.r = new %s[3]; h.r[1] = %s; h.r[2] = h.m.P; %s %s " % (T, b, kinds.show(k, "h.r[1]"), kinds.show(k, "h.r[2]")))
            exp = ea + eb + eb + ea + eb + ea
            body += "%s, %s> d = A@.Id; %s %s, %s> v = o.Vg; %s %s> g = q.Get; %s " % (D, T, kinds.show(k, "d(%s)" % b), D, T, kinds.show(k, "v(%s)" % a), D, kinds.show(k, "g()"))
            exp += eb + ea + ea
            body += "h.m = null; try { %s Console.WriteLine(0); } catch (NullReferenceException e) { Console.WriteLine(1); }" % kinds.show(k, "h.m.P")
            exp += ["1"]
            yield case("members %s through %s" % (k, mid), body, exp, ds)

# ---------------------------------------------------------------- files of an assembly

UNITS = [
    "public enum Co { R = 3, G, B = 9 }\n",
    "public struct Pt { public int x; public Co c; public Pt(int a, Co d) { x = a; c = d; } public int Sum() { return x + (int)c; } }\n",
    "public interface IF { int V(Pt p); }\n",
    "public class Ba { public Pt p; public virtual int F(int k) { return k + p.Sum(); } public static Ba New(int k) { if (k == 0) return new Ba(); return new De(); } }\n",
    "public class De : Ba, IF { public override int F(int k) { return k * 2; } public int V(Pt q) { return q.Sum() + F(1); } }\n",
    "public class P { [EntryPoint] public static void Main() { Ba b = Ba.New(0); b.p = new Pt(5, Co.G); Console.WriteLine(b.F(1)); b = Ba.New(1); Console.WriteLine(b.F(4)); IF i = (IF)b; Console.WriteLine(i.V(new Pt(6, Co.B))); Console.WriteLine(b is De); Console.WriteLine((int)Co.R); } }\n",
]
UNITS_EXP = ["10", "8", "17", "True", "3"]

def partitions(n):
    def rec(i, blocks):
        if i == n:
            yield [list(b) for b in blocks]
            return
        for b in blocks:
            b.append(i)
            yield from rec(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from rec(i + 1, blocks)
        blocks.pop()
    yield from rec(0, [])

def file_jobs(thorough):
    """One assembly: every partition of the types into files, in every order of the files (the types of a file in both orders)."""
    def job(files, opt, via):
        def fn():
            r = run_assemblies([("app", files)], opt, via)
            if r.rc == 0 and r.lines() == UNITS_EXP:
                return None
            return {"src": "\n// ---- next file\n".join(files), "opt": opt, "exp": UNITS_EXP, "got": r.lines(), "detail": r.brief()}
        return fn
    n = 0
    for part in partitions(len(UNITS)):
        orders = list(itertools.permutations(part)) if thorough and len(part) <= 4 else [part, part[::-1]]
        for od in orders:
            for rev in (False, True):
                files = [head([]) + "".join(UNITS[i] for i in (b[::-1] if rev else b)) for b in od]
                for opt, via in (((0, "s"), (2, "a")) if thorough else ((n % 4, "sa"[n // 4 % 2]),)):
                    yield ("files %s%s O%d %s" % (od, " reversed" if rev else "", opt, via), len(files) + 5, job(files, opt, via))
                n += 1

def split_jobs(thorough):
    """The same types over at most three assemblies, in every way their references allow, in every order of the command line."""
    deps = {0: [], 1: [0], 2: [1], 3: [1, 4], 4: [3, 2], 5: [3, 2, 4, 0]}      # Ba and De need each other
    def job(asms, opt, via, order):
        def fn():
            r = run_assemblies(asms, opt, via, order)
            if r.rc == 0 and r.lines() == UNITS_EXP:
                return None
            return {"src": "\n".join("// ---- assembly %s\n%s" % (a, "".join(f)) for a, f in asms), "opt": opt, "exp": UNITS_EXP, "got": r.lines(), "detail": r.brief()}
        return fn
    n = 0
    for place in itertools.product(range(3), repeat=len(UNITS)):
        if place[5] != 2 or any(place[d] > place[u] for u in deps for d in deps[u]):
            continue
        asms, done = [], []
        for l in range(3):
            us = [u for u in range(len(UNITS)) if place[u] == l]
            if us:
                asms.append((LEVELS[l], [head(done) + "".join(UNITS[u] for u in us)]))
                done.append(LEVELS[l])
        for order in range(24) if thorough else (n % 24, (n + 11) % 24):
            for opt in (0, 2) if thorough else (n % 4,):
                for via in "sa":
                    yield ("split %s order %d O%d %s" % (place, order, opt, via), len(asms) + 5, job(asms, opt, via, order))
        n += 1

def run(ex0, tier):
    th = tier == "thorough"
    ex = ex0
    ex.__class__ = Ex18
    ex.batch = 40
    ex.opts = ((0, "s", 0), (0, "a", 3), (1, "a", 0), (2, "s", 7), (3, "a", 20)) if th else ((0, "s", 0), (2, "a", 9))
    small = ["byte", "int", "long", "double", "char", "string", "S3", "SN", "Rf"]
    ex.explore("fields 1", fields(1, FIELD))
    ex.explore("fields 2", fields(2, FIELD if th else ["byte", "int", "double", "string", "S3"]))
    if th:
        ex.explore("fields 3", fields(3, ["byte", "int", "double", "S3", "Rf"]))
    ex.explore("virtual 2", virtuals(2, 2))
    ex.explore("virtual 3", virtuals(3, 2) if th else virtuals(3, 1))
    if th:
        ex.explore("virtual 4", virtuals(4, 1))
    ex.explore("interfaces", interfaces())
    ex.explore("signatures 1", signatures(1, FIELD))
    ex.explore("signatures 2", signatures(2, small if th else ["byte", "S3", "Rf"]))
    ex.explore("overloads", overloads([k for k in FIELD if k not in ("obj", "En")]) if th else overloads(["int", "long", "double", "string", "S3", "SN", "Rf", "arr", "bool"]))
    ex.explore("exceptions", exceptions())
    ex.explore("casts", casts())
    ex.explore("members", members([k for k in FIELD if k != "arr"]))           # no arrays of arrays
    ex.check("files", file_jobs(th))
    ex.check("split", split_jobs(th))

if __name__ == "__main__":
    main("C18", run, "explicit enumeration of the placements of a program's types in files and assemblies, each run on the real compiler and VM against the oracle of the program itself")
