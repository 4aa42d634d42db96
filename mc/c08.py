"""Exceptions: every tree of try/catch/finally, throws, calls, jumps up to a bound, under every sequence of decisions."""
from fw import *
from num import wrap
import functools
from c07 import Om, Break, Continue, Return

EXTRA = """
public class EA : Exception { public int k; public EA(int v) { k = v; } }
public class EB : EA { public EB(int v) : base(v) { } }
public class EC : Exception { public int k; public EC(int v) { k = v; } }
public class O {
    public int m; public int n; public long h;
    public O(int mask) { m = mask; n = 0; h = 7L; }
    public bool N() { bool r = ((m >> n) & 1) != 0; n = n + 1; T(r ? 1 : 2); return n <= BITS && r; }
    public void T(int k) { h = h * 31L + (long)k; }
    public int D(int k) { T(k); if (N()) throw new EB(k + 1); return k; }
}
public class Q {
    public static int Id(Exception e) {
        if (e is EB) { EB b = (EB)e; return 2000 + b.k; }
        if (e is EA) { EA a = (EA)e; return 1000 + a.k; }
        if (e is EC) { EC c = (EC)e; return 3000 + c.k; }
        if (e is NullReferenceException) return 4000;
        if (e is OutOfRangeException) return 5000;
        if (e is InvalidCastException) return 6000;
        return 9000;
    }
    public static int S(O o, int i) { o.T(i); return i + 1; }
}
"""

class X(Exception):
    def __init__(self, cls, k): self.cls, self.k = cls, k
    def id(self): return {"EA": 1000 + self.k, "EB": 2000 + self.k, "EC": 3000 + self.k, "NR": 4000, "OR": 5000, "IC": 6000}[self.cls]
    def isa(self, c): return c == "Exception" or c == self.cls or (self.cls, c) == ("EB", "EA")

# leaves: t; thr C (if the decision says so); ret / brk / cont (decided); reth (inside catch); nr / oor (decided)
# nodes: seq a b; tc C a b (try a catch (C) b); tf a b; ta a b (catch all); call a; loop a (twice); tcf C a b c; tcc a b c (catch EB then EA)

LEAF = ["thrEA", "thrEB", "thrEC", "ret", "t"]

def gen(n, env, kinds, leaves):
    """env: (in loop, in catch, in finally)"""
    loop, cat, fin = env
    if n == 1:
        for l in leaves:
            if l in ("brk", "cont") and not loop: continue
            if l == "reth" and not cat: continue
            if l == "ret" and fin: continue
            yield (l,)
        return
    for k in kinds:
        if k == "seq":
            for i in range(1, n):
                for a in gen(i, env, kinds, leaves):
                    if a[0] == "seq": continue
                    for b in gen(n - i, env, kinds, leaves): yield ("seq", a, b)
        elif k in ("call", "callx"):
            for a in gen(n - 1, (False, False, False), kinds, leaves): yield (k, a)
        elif k == "loop":
            for a in gen(n - 1, (True, cat, fin), kinds, leaves): yield (k, a)
        elif k == "if":
            for a in gen(n - 1, env, kinds, leaves): yield (k, a)
        elif k == "tf":
            for i in range(1, n - 1):
                for a in gen(i, env, kinds, leaves):
                    for b in gen(n - 1 - i, (False, False, True), kinds, leaves): yield (k, a, b)
        elif k[:2] in ("tc", "ta") and len(k) <= 2 or k.startswith("tc:"):
            for i in range(1, n - 1):
                for a in gen(i, env, kinds, leaves):
                    for b in gen(n - 1 - i, (loop, True, fin), kinds, leaves): yield (k, a, b)
        elif k in ("tcc", "tcf") and n >= 4:
            for i in range(1, n - 2):
                for j in range(1, n - 1 - i):
                    for a in gen(i, env, kinds, leaves):
                        for b in gen(j, (loop, True, fin), kinds, leaves):
                            e3 = (loop, True, fin) if k == "tcc" else (False, False, True)
                            for c in gen(n - 1 - i - j, e3, kinds, leaves): yield (k, a, b, c)

def number(s, c):
    if len(s) == 1: return s + (next(c),)
    k = (next(c),)
    return (s[0],) + tuple(number(x, c) for x in s[1:]) + k

def run_(s, o, cur):
    k = s[0]
    if k == "t": o.T(s[1])
    elif k.startswith("thr"):
        if o.N(): raise X(k[3:], s[1])
    elif k == "THR": raise X("EA", s[1])
    elif k == "nr":
        if o.N(): raise X("NR", 0)
    elif k == "oor":
        if o.N(): raise X("OR", 0)
    elif k == "ic":
        if o.N(): raise X("IC", 0)
    elif k == "dx":
        o.T(s[1])
        if o.N(): raise X("EB", s[1] + 1)
        o.T(s[1] * 3 + 1)
    elif k == "ret":
        if o.N():
            if VOID: o.T(1000)
            raise Return(s[1])
    elif k == "RET": raise Return(s[1])
    elif k == "brk":
        if o.N(): raise Break
    elif k == "cont":
        if o.N(): raise Continue
    elif k == "reth":
        if o.N(): raise cur
    elif k == "seq": run_(s[1], o, cur); run_(s[2], o, cur)
    elif k == "if":
        if o.N(): run_(s[1], o, cur)
    elif k in ("call", "callx"):
        try:
            run_(s[1], o, None)
            r = 50
        except Return as e: r = e.args[0]
        o.T(r + (100 if k == "callx" else 0))
    elif k == "loop":
        for i in range(2):
            try: run_(s[1], o, cur)
            except Break: break
            except Continue: pass
            o.T(i)
    elif k == "tf":
        try:
            run_(s[1], o, cur)
        finally:
            o.T(s[3])
            run_(s[2], o, None)
    else:
        fin = s[3] if k == "tcf" else None
        num = s[-1]
        try:
            try:
                run_(s[1], o, cur)
            except X as e:
                if k.startswith("tc:"):
                    if not e.isa(k[3:]): raise
                    o.T(e.id()); run_(s[2], o, e)
                elif k == "ta":
                    o.T(num); run_(s[2], o, e)
                elif k == "tcf":
                    if not e.isa("EA"): raise
                    o.T(e.id()); run_(s[2], o, e)
                else:
                    if e.isa("EB"): o.T(e.id()); run_(s[2], o, e)
                    elif e.isa("EA"): o.T(e.id() + 7); run_(s[3], o, e)
                    else: raise
        finally:
            if fin is not None:
                o.T(num)
                run_(fin, o, None)

def src(s, ms):
    k = s[0]
    n = s[-1]
    if k == "t": return "o.T(%d);" % n
    if k.startswith("thr"): return "if (o.N()) throw new %s(%d);" % (k[3:], n)
    if k == "THR": return "throw new EA(%d);" % n
    if k == "nr": return "if (o.N()) { O z = null; z.n = 1; }"
    if k == "oor": return "if (o.N()) { int[] z = new int[2]; z[2] = 1; }"
    if k == "ic": return "if (o.N()) { object z = new EA(1); EC w = (EC)z; }"
    if k == "dx": return "o.T(%d * 2 + 1 + o.D(%d));" % (n, n)
    if k == "ret": return "if (o.N()) return %d;" % n
    if k == "RET": return "return %d;" % n
    if k == "brk": return "if (o.N()) break;"
    if k == "cont": return "if (o.N()) continue;"
    if k == "reth": return "if (o.N()) throw;"
    if k == "seq": return src(s[1], ms) + " " + src(s[2], ms)
    if k == "if": return "if (o.N()) { %s }" % src(s[1], ms)
    if k in ("call", "callx"):
        b = src(s[1], ms)
        m = "G@_%d" % len(ms)
        ms.append("static int %s(O o) { %s return 50; }" % (m, b))
        return "o.T(%s(o));" % m if k == "call" else "o.T(40 + %s(o) + 60);" % m
    if k == "loop": return "for (int i%d = 0; i%d < 2; i%d = Q.S(o, i%d)) { %s }" % (n, n, n, n, src(s[1], ms))
    if k == "tf": return "try { %s } finally { o.T(%d); %s }" % (src(s[1], ms), n, src(s[2], ms))
    if k.startswith("tc:"): return "try { %s } catch (%s e%d) { o.T(Q.Id(e%d)); %s }" % (src(s[1], ms), k[3:], n, n, src(s[2], ms))
    if k == "ta": return "try { %s } catch { o.T(%d); %s }" % (src(s[1], ms), n, src(s[2], ms))
    if k == "tcf": return "try { %s } catch (EA e%d) { o.T(Q.Id(e%d)); %s } finally { o.T(%d); %s }" % (src(s[1], ms), n, n, src(s[2], ms), n, src(s[3], ms))
    if k == "tcc": return "try { %s } catch (EB e%d) { o.T(Q.Id(e%d)); %s } catch (EA f%d) { o.T(Q.Id(f%d) + 7); %s }" % (src(s[1], ms), n, n, src(s[2], ms), n, n, src(s[3], ms))
    raise KeyError(k)

def has_try(s): return isinstance(s, tuple) and (s[0] in ("tf", "ta", "tcf", "tcc") or str(s[0]).startswith("tc:") or any(has_try(x) for x in s[1:]))

VOID = False

def programs(stmts, bits, void=False):
    global VOID
    for raw in stmts:
        if not has_try(raw): continue
        s = number(raw, itertools.count(3, 2))
        VOID = void
        exp, steps = [], 0
        for m in range(1 << bits):
            o = Om(m, bits)
            try:
                run_(s, o, None)
                r = 99
            except Return as e: r = e.args[0]
            except X as e: r = e.id()
            exp += [str(r if not void or r > 99 else 99), str(o.h)]
            steps += o.steps
        ms = []
        t = src(s, ms)
        if void: t = re.sub(r"return (\d+);", "{ o.T(1000); return; }", t)
        mem = " ".join(ms)
        if void:
            yield Case("void " + t + (" | " + mem if mem else ""), "for (int m = 0; m < %d; m++) { O o = new O(m); int r = 99; try { F@(o); } catch (Exception e) { r = Q.Id(e); } Console.WriteLine(r); Console.WriteLine(o.h); }" % (1 << bits), exp,
                       mem + " static void F@(O o) { %s }" % t, steps=steps)
        else:
            yield Case(t + (" | " + mem if mem else ""), "for (int m = 0; m < %d; m++) { O o = new O(m); int r = 0; try { r = F@(o); } catch (Exception e) { r = Q.Id(e); } Console.WriteLine(r); Console.WriteLine(o.h); }" % (1 << bits), exp,
                       mem + " static int F@(O o) { %s return 99; }" % t, steps=steps)

# ------------------------------------------------------------ places an exception can pass through

def places():
    """A throw inside every kind of operand and of callee: nothing after it happens, what was before is kept, the handler runs once,
    and locals, fields and later computations are undisturbed."""
    D = """
public interface I@ { int M(int v); }
public class CX@ : I@ {
    public int f; public int[] a; public CX@ next;
    public CX@(int v) { f = 5; a = new int[4]; if (v == 0) throw new EA(7); f = v; }
    public int M(int v) { f = 8; if (v == 0) throw new EA(7); return v; }
    public virtual int V(int v) { f = 8; if (v == 0) throw new EA(7); return v; }
    public int P { get { if (f == 3) throw new EA(7); return f; } set { if (value == 0) throw new EA(7); f = value; } }
}
public class D@ : CX@ { public D@(int v) : base(1) { f = 5; a = new int[4]; if (v == 0) throw new EA(7); } public override int V(int v) { f = 9; if (v == 0) throw new EA(7); return v + 1; } }
public struct S@ { public int x; public long y; public S@(int v) { x = v; y = 3L; if (v == 0) throw new EA(7); } public int M(int v) { x = 8; if (v == 0) throw new EA(7); return v; } }
"""
    F = """static int F@(int v) { if (v == 0) throw new EA(7); return v; }
static bool B@(int v) { if (v == 0) throw new EA(7); return v > 1; }
static long L@(int v) { if (v == 0) throw new EA(7); return (long)v; }
static double U@(int v) { if (v == 0) throw new EA(7); return (double)v; }
static CX@ KX@(int v) { if (v == 0) throw new EA(7); return new CX@(4); }
static S@ Z@(int v) { S@ s; s.x = v; s.y = 4L; if (v == 0) throw new EA(7); return s; }
static int A3@(int p, int q, int r) { Console.WriteLine(p + q + r); return 1; }
static void R@(ref int p, out int q) { p = 3; q = 4; if (p == 3) throw new EA(7); p = 5; }
static void VX@(int v) { if (v == 0) throw new EA(7); }
static int G@(int d) { if (d == 0) throw new EA(7); int x = G@(d - 1); return x + 1; }
"""
    # statement, and the locals changed before the throw
    ST = [
        ("x = F@(0);", {}), ("x = 1 + F@(0);", {}), ("x = x * 2 + (y - F@(0)) * 3;", {}), ("x += F@(0);", {}), ("a[1] = F@(0);", {}), ("a[F@(0)] = 9;", {}), ("x = a[F@(0)];", {}),
        ("a[1] += F@(0);", {}), ("c.f = F@(0);", {}), ("c.f += F@(0);", {}), ("c.P = 0;", {}), ("c.f = 3; x = c.P;", {"c.f": 3}), ("x = c.M(0);", {"c.f": 8}), ("x = c.V(0);", {"c.f": 8}), ("x = d.V(0);", {"d.f": 9}),
        ("I@ i = c; x = i.M(0);", {"c.f": 8}), ("s.x = F@(0);", {}), ("s = Z@(0);", {}), ("x = s.M(0);", {"s.x": 8}), ("c = new CX@(0);", {}), ("d = new D@(0);", {}), ("c = KX@(0);", {}), ("x = KX@(0).f;", {}),
        ("KX@(0).f = 3;", {}), ("A3@(1, F@(0), 3);", {}), ("A3@(x++, F@(0), y++);", {"x": 11}), ("x = A3@(F@(1), F@(2), F@(0));", {}), ("VX@(0);", {}), ("VX@(F@(0));", {}), ("if (B@(0)) x = 3; else x = 4;", {}), ("while (B@(0)) x = 3;", {}),
        ("for (x = 3; B@(0); x++) y = 3;", {"x": 3}), ("do { y = 7; } while (B@(0));", {"y": 7}), ("switch (F@(0)) { case 0: x = 3; break; default: x = 4; break; }", {}), ("bool b = x > 1 && B@(0);", {}), ("bool b = x < 1 || B@(0);", {}),
        ("x = B@(0) ? 1 : 2;", {}), ("x = x > 1 ? F@(0) : 2;", {}), ("int w = F@(0);", {}), ("object o = F@(0);", {}), ("l = L@(0);", {}), ("l = l + 2L * L@(0);", {}), ("u = u + 2.0 * U@(0);", {}), ("R@(ref x, out y);", {"x": 3, "y": 4}),
        ("Delegate<int, int> w = F@; x = w(0);", {}), ("Delegate<int, int> w = c.M; x = w(0);", {"c.f": 8}), ("x = G@(50);", {}), ("Console.WriteLine(F@(0));", {}), ("int[] b = new int[F@(0)];", {}), ("int[] b = new int[] { 1, F@(0), 3 };", {}),
        ("a[x - 6] = F@(2) + F@(0);", {}), ("c.a[1] = F@(0);", {}), ("c.next.f = 1;", "NR"), ("x = c.next.f;", "NR"), ("x = c.next.M(1);", "NR"), ("x = a[4];", "OR"), ("a[-1] = 1;", "OR"), ("x = a[y];", "OR"), ("object o = 5; c = (CX@)o;", "IC"), ("object o = c; x = (int)o;", "IC"),
        ("int[] b = null; x = b[0];", "NR"), ("c = null; c.f = 3;", "NR"), ("I@ i = null; x = i.M(1);", "NR"), ("EA e = null; throw e;", "NR"), ("try { x = F@(0); } finally { y = 6; }", {"y": 6}), ("try { x = F@(0); } catch (EC e) { y = 6; }", {}),
        ("try { x = F@(0); } catch (EA e) { y = 6; throw; }", {"y": 6}), ("try { x = F@(0); } catch (EA e) { y = 6; throw e; }", {"y": 6}), ("try { try { x = F@(0); } finally { x = 2; } } finally { y = x + 4; }", {"x": 2, "y": 6}),
    ]
    IDS = {"NR": 4000, "OR": 5000, "IC": 6000}
    base = {"x": 10, "y": 20, "c.f": 4, "d.f": 5, "s.x": 6}
    for st, ch in ST:
        vals = dict(base)
        r = 1007
        if isinstance(ch, str):
            r = IDS[ch]
            if st.startswith("c = null"): continue
        else: vals.update(ch)
        body_init = "int x = 10; int y = 20; long l = 30L; double u = 2.5; int[] a = new int[] { 1, 2, 3, 4 }; CX@ c = new CX@(4); D@ d = new D@(4); S@ s = new S@(6); int r = 0; int g = 77;"
        show = "Console.WriteLine(r); Console.WriteLine(x); Console.WriteLine(y); Console.WriteLine(l); Console.WriteLine(u); Console.WriteLine(a[0] * 1000 + a[1] * 100 + a[2] * 10 + a[3]); Console.WriteLine(c.f); Console.WriteLine(d.f); Console.WriteLine(s.x); Console.WriteLine(s.y); Console.WriteLine(g);"
        exp = [str(r), str(vals["x"]), str(vals["y"]), "30", "2.5", "1234", str(vals["c.f"]), str(vals["d.f"]), str(vals["s.x"]), "3", "77"]
        yield Case("place " + st, body_init + " try { %s g = 78; } catch (Exception e) { r = Q.Id(e); } %s" % (st, show), exp, F, D)
        yield Case("place, in a loop with operands " + st, body_init + " for (int k = 0; k < 3; k++) { x = 10; y = 20; c = new CX@(4); d = new D@(4); s = new S@(6); try { %s g = 78; } catch (Exception e) { r = Q.Id(e); } } %s" % (st, show), exp, F, D)
        if "x" not in ch and "y" not in ch:
            yield Case("place, rest of the frame " + st, body_init + " try { try { %s g = 78; } finally { l = 31L; } } catch (Exception e) { r = Q.Id(e); } int z = x + y; %s Console.WriteLine(z);" % (st, show),
                       exp[:3] + ["31"] + exp[4:] + [str(vals["x"] + vals["y"])], F, D)

def depth(deep):
    """Exceptions crossing d frames, with a handler or finally in every subset of them."""
    n = 4 if not deep else 6
    for kinds in itertools.product("pfcr", repeat=n):     # pass, finally, catch other, catch and rethrow
        ms, exp = ["static int H@_0(O o, int v) { int w = v * 2; if (v == 0) throw new EB(5); o.T(w); return w; }"], []
        for i, k in enumerate(kinds, 1):
            call = "int r = H@_%d(o, v) + %d;" % (i - 1, i)
            post = " o.T(w); return r + w;"
            pre = "static int H@_%d(O o, int v) { int w = v + %d; " % (i, i)
            if k == "p": ms.append(pre + call + post + " }")
            if k == "f": ms.append(pre + "try { %s return r + w; } finally { o.T(w + 3); } }" % call)
            if k == "c": ms.append(pre + "try { %s return r + w; } catch (EC e) { o.T(w + 5); return 1; } }" % call)
            if k == "r": ms.append(pre + "try { %s return r + w; } catch (EA e) { o.T(e.k + w); throw; } }" % call)
        for v in (0, 3):
            o = Om(0, 0)
            def h(i, v):
                if i == 0:
                    if v == 0: raise X("EB", 5)
                    o.T(v * 2); return v * 2
                w, k = v + i, kinds[i - 1]
                try:
                    r = h(i - 1, v) + i
                    if k == "p": o.T(w)
                    return r + w
                except X as e:
                    if k == "r": o.T(e.k + w)
                    raise
                finally:
                    if k == "f": o.T(w + 3)
            try: r = h(n, v)
            except X as e: r = e.id()
            exp += [str(r), str(o.h)]
        yield Case("depth " + "".join(kinds), " ".join("{ O o = new O(0); int r = 0; try { r = H@_%d(o, %d); } catch (Exception e) { r = Q.Id(e); } Console.WriteLine(r); Console.WriteLine(o.h); }" % (n, v) for v in (0, 3)), exp, " ".join(ms))

def uncaught(ex):
    """An exception nothing catches ends the program after the finally blocks on its way."""
    def one(src_, opt, exp, name):
        r = run_source(src_, opt)
        ls = r.lines()
        if ls[:-1] == exp and ls[-1].startswith("Uncaught Exception:") and name in ls[-1]: return None
        return {"src": src_, "opt": opt, "exp": exp + ["Uncaught Exception: " + name], "got": ls, "detail": "exit code %s" % r.rc}
    frames = [("{ %s }", None), ("try { %s } finally { Console.WriteLine(\"f%d\"); }", "f"), ("try { %s } catch (EC e) { Console.WriteLine(\"c%d\"); }", None), ("try { %s } catch (EA e) { Console.WriteLine(\"r%d\"); throw; }", "r")]
    for combo in itertools.product(range(4), repeat=3):
        for src0, name in (("throw new EB(3);", "EB"), ("int[] a = new int[1]; a[1] = 2;", "System.OutOfRangeException"), ("EA z = null; z.k = 1;", "System.NullReferenceException")):
            ms, exp = ["static void H0() { %s }" % src0], ["start"]
            for i, k in enumerate(combo, 1):
                pat, out = frames[k]
                b = pat.replace("%d", str(i)) % ("H%d(); Console.WriteLine(\"after%d\");" % (i - 1, i))
                ms.append("static void H%d() { %s Console.WriteLine(\"end%d\"); }" % (i, b, i))
                if out == "f": exp.append("f%d" % i)
                if out == "r" and name == "EB": exp.append("r%d" % i)
            src_ = "import System;\nusing System;\n" + EXTRA.replace("BITS", "1") + "public class P { %s\n[EntryPoint]\npublic static void Main() { Console.WriteLine(\"start\"); H3(); Console.WriteLine(\"end\"); } }\n" % "\n".join(ms)
            for opt in ex.opts:
                yield ("uncaught %s %s O%d" % (combo, src0, opt), len(exp), functools.partial(one, src_, opt, exp, name.split(".")[-1]))

ALL = ["seq", "tf", "tc:EA", "ta", "tcc", "tcf", "call", "loop"]

def run(ex, tier):
    deep = tier == "thorough"
    bits = 4
    ex.extra = EXTRA.replace("BITS", str(bits))
    ch = itertools.chain.from_iterable
    E0 = (False, False, False)
    ex.explore("trees up to 4 nodes", ch(programs(gen(k, E0, ALL, ["t", "thrEB", "thrEC", "ret", "brk", "cont", "reth"]), bits) for k in (3, 4)), batch=80)
    ex.explore("trees of 5 nodes, throws and finally", programs(gen(5, E0, ["seq", "tf", "tc:EA"], ["thrEB", "ret", "reth"]), bits), batch=80)
    ex.explore("trees of 5 nodes, jumps and finally", programs(gen(5, E0, ["tf", "loop", "tc:Exception"], ["thrEA", "ret", "brk", "cont"]), bits), batch=80)
    ex.explore("trees of 5 nodes, calls", programs(gen(5, E0, ["tf", "call", "tcf", "tc:EB"], ["thrEA", "thrEB", "ret", "reth"]), bits), batch=80)
    ex.explore("sources of exceptions", ch(programs(gen(k, E0, ["seq", "tf", "tc:Exception", "tc:EA", "callx"], ["nr", "oor", "ic", "dx", "t"]), bits) for k in (3, 4)), batch=80)
    ex.explore("void methods", ch(programs(gen(k, E0, ["seq", "tf", "tc:EA", "loop"], ["thrEB", "thrEC", "ret", "brk"]), bits, True) for k in (3, 4)), batch=80)
    ex.explore("unconditional", ch(programs(gen(k, E0, ["seq", "tf", "tc:EA", "ta", "if", "loop"], ["THR", "RET", "t"]), 2) for k in (3, 4)), batch=80)
    ex.explore("five nodes, all kinds", programs(gen(5, E0, ALL, ["thrEB", "ret", "brk", "reth"]), bits), batch=80)
    ex.explore("six nodes", programs(gen(6, E0, ["tf", "tc:EA", "loop", "call"], ["thrEB", "ret", "brk"]), bits), batch=80)
    if deep:
        ex.explore("six nodes, more", programs(gen(6, E0, ["tf", "tc:EA", "tcf", "loop", "seq"], ["thrEB", "ret", "cont", "reth"]), bits), batch=60)
        ex.explore("trees of 5 nodes", programs(gen(5, E0, ALL, ["thrEB", "thrEC", "ret", "brk", "cont", "reth"]), bits), batch=80)
    ex.explore("places", places())
    ex.explore("depth", depth(deep))
    ex.check("uncaught", uncaught(ex))

if __name__ == "__main__":
    main("C08", run, "explicit enumeration of all try/catch/finally trees up to a bound x all decision sequences, against a reference interpreter")
