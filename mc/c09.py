"""Method calls: every parameter list, return type, way of calling, reference parameter and recursion up to a bound."""
from fw import *
import kinds
from kinds import T, val, show, KINDS
from num import wrap

K17 = ["sbyte", "byte", "ushort", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string", "En", "S1", "S3", "S12", "SN", "SR", "Rf", "obj", "arr"]

FORMS = ["static", "instance", "virtual", "interface", "ctor", "struct", "delegate", "idelegate", "override", "sctor", "nested"]

def params(ks): return ", ".join("%s p%d" % (T(k), i) for i, k in enumerate(ks))

def lists(lens, form, ks=K17):
    """Every list of parameter kinds: each parameter arrives, in its place; the caller's locals stay."""
    for n in lens:
        for combo in itertools.product(ks, repeat=n):
            args = [val(k, i) for i, k in enumerate(combo)]
            shows = " ".join(show(k, "p%d" % i) for i, k in enumerate(combo))
            exp = [l for a in args for l in a[1]]
            al = ", ".join(a[0] for a in args)
            pl = params(combo)
            body_ = "int a = 11; long b = 22L; %s int c = 33; %s Console.WriteLine(a + c); Console.WriteLine(b);"
            key = "%s(%s)" % (form, ", ".join(combo))
            tail = ["44", "22"]
            if form == "static":
                yield Case(key, body_ % ("", "F@(%s);" % al), exp + tail, "static void F@(%s) { %s }" % (pl, shows))
            elif form == "instance":
                yield Case(key, body_ % ("X@ x = new X@();", "x.F(%s); Console.WriteLine(x.z);" % al), exp + ["9"] + tail, decls="public class X@ { public int z; public void F(%s) { z = 9; %s } }" % (pl, shows))
            elif form == "virtual":
                yield Case(key, body_ % ("X@ x = new Y@();", "x.F(%s); Console.WriteLine(x.z);" % al), exp + ["9"] + tail, decls="public class X@ { public int z; public virtual void F(%s) { z = 8; } } public class Y@ : X@ { public override void F(%s) { z = 9; %s } }" % (pl, pl, shows))
            elif form == "override":
                yield Case(key, body_ % ("A@ x = new Y@();", "x.F(%s); Console.WriteLine(x.z);" % al), exp + ["9"] + tail, decls="public abstract class A@ { public int z; public abstract void F(%s); } public class X@ : A@ { public override void F(%s) { z = 9; %s } } public class Y@ : X@ { }" % (pl, pl, shows))
            elif form == "interface":
                yield Case(key, body_ % ("I@ x = new X@();", "x.F(%s); Console.WriteLine(((X@)x).z);" % al), exp + ["9"] + tail, decls="public interface I@ { void F(%s); } public class X@ : I@ { public int z; public void F(%s) { z = 9; %s } }" % (pl, pl, shows))
            elif form == "ctor":
                yield Case(key, body_ % ("", "X@ x = new X@(%s); Console.WriteLine(x.z);" % al), exp + ["9"] + tail, decls="public class X@ { public int z; public X@(%s) { z = 9; %s } }" % (pl, shows))
            elif form == "sctor":
                yield Case(key, body_ % ("", "X@ x = new X@(%s); Console.WriteLine(x.z);" % al), exp + ["9"] + tail, decls="public struct X@ { public int z; public X@(%s) { z = 9; %s } }" % (pl, shows))
            elif form == "struct":
                yield Case(key, body_ % ("X@ x; x.y = (byte)7; x.z = 1;", "x.F(%s); Console.WriteLine(x.z); Console.WriteLine(x.y);" % al), exp + ["9", "7"] + tail, decls="public struct X@ { public byte y; public int z; public void F(%s) { z = 9; %s } }" % (pl, shows))
            elif form == "delegate":
                yield Case(key, body_ % ("var d = F@;", "int r = d(%s); Console.WriteLine(r);" % al), exp + ["9"] + tail, "static int F@(%s) { %s return 9; }" % (pl, shows))
            elif form == "idelegate":
                yield Case(key, body_ % ("X@ x = new X@(); var d = x.F;", "int r = d(%s); Console.WriteLine(r); Console.WriteLine(x.z);" % al), exp + ["9", "5"] + tail, decls="public class X@ { public int z; public int F(%s) { z = 5; %s return 9; } }" % (pl, shows))
            elif form == "nested":
                # the arguments pass through a second call with further locals
                yield Case(key, body_ % ("", "F@(%s);" % al), exp + ["55"] + tail,
                           "static void F@(%s) { byte q = (byte)5; G@(%s); Console.WriteLine(q * 11); } static void G@(%s) { long w = 7L; %s }" % (pl, ", ".join("p%d" % i for i in range(n)), pl, shows))

def returns():
    """Every return kind by every way of calling and using the result."""
    for k in K17:
        for i in range(2):
            v, lines = val(k, i)
            t = T(k)
            forms = {
                "static": ("", "static %s F@(int a) { return %s; }" % (t, v), "", "F@(1)"),
                "instance": ("public class X@ { public %s F(int a) { return %s; } }" % (t, v), "", "X@ x = new X@();", "x.F(1)"),
                "virtual": ("public class X@ { public virtual %s F(int a) { return %s; } } public class Y@ : X@ { public override %s F(int a) { return %s; } }" % (t, val(k, i + 1)[0], t, v), "", "X@ x = new Y@();", "x.F(1)"),
                "interface": ("public interface I@ { %s F(int a); } public class X@ : I@ { public %s F(int a) { return %s; } }" % (t, t, v), "", "I@ x = new X@();", "x.F(1)"),
                "struct": ("public struct X@ { public int q; public %s F(int a) { q = a; return %s; } }" % (t, v), "", "X@ x; x.q = 3;", "x.F(1)"),
                "delegate": ("", "static %s F@(int a) { return %s; }" % (t, v), "var d = F@;", "d(1)"),
                "property": ("public class X@ { public %s P { get { return %s; } } }" % (t, v), "", "X@ x = new X@();", "x.P"),
                "local": ("", "static %s F@(int a) { %s l = %s; byte q = (byte)a; return l; }" % (t, t, v), "", "F@(1)"),
                "field": ("", "static %s F@(int a) { X@ x = new X@(); x.f = %s; return x.f; }" % (t, v), "", "F@(1)"),
                "elem": ("", "static %s F@(int a) { %s[] x = new %s[2]; x[a] = %s; return x[1]; }" % (t, t, t, v), "", "F@(1)"),
                "param": ("", "static %s G@(int u, %s p) { return p; } static %s F@(int a) { return G@(a, %s); }" % (t, t, t, v), "", "F@(1)"),
                "cond": ("", "static %s F@(int a) { return a > 0 ? %s : %s; }" % (t, v, val(k, i + 1)[0]), "", "F@(1)"),
                "branch": ("", "static %s F@(int a) { if (a == 2) return %s; for (int j = 0; ; j++) { if (j == 3) return %s; } }" % (t, val(k, i + 1)[0], v), "", "F@(1)"),
                "recursive": ("", "static %s F@(int a) { if (a < 3) return F@(a + 1); return %s; }" % (t, v), "", "F@(1)"),
            }
            for f, (decls, mem, pre, call) in forms.items():
                if k == "arr" and f == "elem": continue
                if k in ("S1", "S3", "S12", "SN", "SR") and f == "cond": continue
                if k in ("string", "obj", "Rf", "arr", "En", "char", "bool") and f == "cond" and k != "bool": continue
                if f == "field": decls = "public class X@ { public byte u; public %s f; public byte w; }" % t
                yield Case("return %s %s %d" % (k, f, i), "byte z = (byte)9; %s { %s r = %s; %s } %s %s; { %s r; int n = 4; r = %s; %s Console.WriteLine(n); } Console.WriteLine(z);" % (pre, t, call, show(k, "r"), show(k, call), call if f != "property" else "z = (byte)9", t, call, show(k, "r")),
                           lines * 3 + ["4", "9"], mem, decls)

def refs():
    """ref and out parameters: what is written is seen in exactly the caller's variable."""
    for k in K17:
        (v0, l0), (v1, l1) = val(k, 0), val(k, 1)
        t = T(k)
        pre = "%s a = %s; %s b = %s; %s c = %s;" % (t, v0, t, v0, t, v1)
        allof = lambda: " ".join(show(k, x) for x in "abc")
        yield Case("ref write %s" % k, pre + " F@(ref b); " + allof(), l0 + l1 + l1, "static void F@(ref %s p) { p = %s; }" % (t, v1))
        yield Case("ref read %s" % k, pre + " F@(ref c); " + allof(), l1 + l0 + l0 + l1, "static void F@(ref %s p) { %s }" % (t, show(k, "p")))
        yield Case("ref read after write %s" % k, pre + " F@(ref b, ref b); " + allof(), l1 + l0 + l1 + l1, "static void F@(ref %s p, ref %s q) { p = %s; %s }" % (t, t, v1, show(k, "q")))
        yield Case("out %s" % k, "%s a = %s; %s b; %s c = %s; F@(out b); " % (t, v0, t, t, v1) + allof(), l0 + l1 + l1, "static void F@(out %s p) { p = %s; }" % (t, v1))
        yield Case("ref passed on %s" % k, pre + " F@(3, ref b); " + allof(), l0 + l1 + l1, "static void F@(int n, ref %s p) { if (n == 0) p = %s; else F@(n - 1, ref p); }" % (t, v1))
        yield Case("swap %s" % k, pre + " F@(ref b, ref c); " + allof(), l0 + l1 + l0, "static void F@(ref %s p, ref %s q) { %s x = p; p = q; q = x; }" % (t, t, t))
        yield Case("ref of a parameter %s" % k, pre + " G@(7, b, 8); " + allof(), ["7"] + l1 + ["8"] + l0 + l0 + l1, "static void F@(ref %s p) { p = %s; } static void G@(int x, %s q, int y) { F@(ref q); Console.WriteLine(x); %s Console.WriteLine(y); }" % (t, v1, t, show(k, "q")))
        yield Case("ref then throw %s" % k, pre + " try { F@(ref b); } catch (NullReferenceException e) { } " + allof(), l0 + l1 + l1, "static void F@(ref %s p) { p = %s; Rf z = null; z.v = 1; }" % (t, v1))
        yield Case("by value %s" % k, pre + " F@(b); " + allof(), l1 + l0 + l0 + l1, "static void F@(%s p) { p = %s; %s }" % (t, v1, show(k, "p")))
        yield Case("ref instance %s" % k, pre + " X@ x = new X@(); x.F(1, ref b, out a); " + allof(), l1 + l1 + l1, decls="public class X@ { public int u; public void F(int n, ref %s p, out %s q) { p = %s; u = n; q = p; } }" % (t, t, v1))

def rec():
    """Recursive functions, every argument of a range."""
    def ack(m, n): return n + 1 if m == 0 else ack(m - 1, 1) if n == 0 else ack(m - 1, ack(m, n - 1))
    fib = [0, 1]
    for i in range(30): fib.append(fib[-1] + fib[-2])
    fac = [1]
    for i in range(20): fac.append(wrap(fac[-1] * (i + 1), "long"))
    yield Case("fib", "for (int i = 0; i < 18; i++) Console.WriteLine(F@(i));", [str(x) for x in fib[:18]], "static int F@(int n) { if (n < 2) return n; return F@(n - 1) + F@(n - 2); }")
    yield Case("fac", "for (int i = 0; i < 20; i++) Console.WriteLine(F@((long)i));", [str(x) for x in fac[:20]], "static long F@(long n) { return n == 0L ? 1L : n * F@(n - 1L); }")
    yield Case("ack", "for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) Console.WriteLine(F@(i, j));", [str(ack(i, j)) for i in range(3) for j in range(4)], "static int F@(int m, int n) { if (m == 0) return n + 1; if (n == 0) return F@(m - 1, 1); return F@(m - 1, F@(m, n - 1)); }")
    yield Case("even odd", "for (int i = 0; i < 20; i++) Console.WriteLine(E@(i));", [str(i % 2 == 0) for i in range(20)], "static bool E@(int n) { if (n == 0) return true; return O@(n - 1); } static bool O@(int n) { if (n == 0) return false; return E@(n - 1); }")
    yield Case("gcd", "for (int i = 1; i < 9; i++) for (int j = 1; j < 9; j++) Console.WriteLine(F@(i * 6, j * 4));", [str(__import__("math").gcd(i * 6, j * 4)) for i in range(1, 9) for j in range(1, 9)], "static int F@(int a, int b) { return b == 0 ? a : F@(b, a % b); }")
    def hanoi(n, a, b, c): return [] if n == 0 else hanoi(n - 1, a, c, b) + [a * 10 + c] + hanoi(n - 1, b, a, c)
    yield Case("hanoi", "H@(5, 1, 2, 3);", [str(x) for x in hanoi(5, 1, 2, 3)], "static void H@(int n, int a, int b, int c) { if (n == 0) return; H@(n - 1, a, c, b); Console.WriteLine(a * 10 + c); H@(n - 1, b, a, c); }")
    import itertools as it
    yield Case("permutations", "int[] a = new int[]{1, 2, 3, 4}; P@(a, 0);", None or perm_lines(), "static void P@(int[] a, int k) { if (k == 4) { Console.WriteLine(a[0] * 1000 + a[1] * 100 + a[2] * 10 + a[3]); return; } for (int i = k; i < 4; i++) { int t = a[k]; a[k] = a[i]; a[i] = t; P@(a, k + 1); t = a[k]; a[k] = a[i]; a[i] = t; } }")
    yield Case("deep", "Console.WriteLine(F@(2000));", ["2001000"], "static int F@(int n) { if (n == 0) return 0; int m = n; int r = F@(n - 1); return r + m; }")
    # every pair of local kinds survives a recursion
    ks = K17
    for a, b in itertools.product(ks, repeat=2):
        if a == "arr" or b == "arr": continue
        (v0, l0), (v1, l1) = val(a, 0), val(a, 1)
        (w0, m0), (w1, m1) = val(b, 1), val(b, 0)
        yield Case("frames %s %s" % (a, b), "F@(2);", l1 + m1 + l1 + m1 + l1 + m1,
                   "static void F@(int n) { %s x = %s; %s y = %s; if (n > 0) F@(n - 1); x = %s; if (n > 0) G@(n); y = %s; %s %s } static void G@(int n) { %s y = %s; %s x = %s; long q = 5L; }" % (
                       T(a), v0, T(b), w0, v1, w1, show(a, "x"), show(b, "y"), T(b), w0, T(a), v0))

def perm_lines():
    out = []
    def p(a, k):
        if k == 4: out.append(str(a[0] * 1000 + a[1] * 100 + a[2] * 10 + a[3])); return
        for i in range(k, 4):
            a[k], a[i] = a[i], a[k]; p(a, k + 1); a[k], a[i] = a[i], a[k]
    p([1, 2, 3, 4], 0)
    return out

def locals_(n, ks):
    """Every list of local kinds: each local keeps its own value while the others are written."""
    for combo in itertools.product(ks, repeat=n):
        decl = " ".join("%s v%d = %s;" % (T(k), i, val(k, 0)[0]) for i, k in enumerate(combo))
        body, exp, cur = decl, [], [val(k, 0)[1] for k in combo]
        for i, k in enumerate(combo):
            v, l = val(k, 1)
            body += " v%d = %s;" % (i, v); cur[i] = l
            for j, kk in enumerate(combo):
                body += " " + show(kk, "v%d" % j); exp += cur[j]
        yield Case("locals " + " ".join(combo), body, exp)

def overloads():
    """Every set of up to three overloads of one parameter: a call goes to the one of exactly the argument's type; and by number of parameters."""
    ks = ["int", "long", "double", "float", "byte", "uint", "bool", "char", "string", "Rf", "En", "S12", "arr"]
    for n in (2, 3):
        for combo in itertools.permutations(ks, n) if n == 2 else itertools.combinations(ks, n):
            ms = " ".join("static void F@(%s p) { Console.WriteLine(\"%s\"); %s }" % (T(k), k, show(k, "p")) for k in combo)
            yield Case("overload " + " ".join(combo), " ".join("F@(%s);" % val(k, 0)[0] for k in combo), [l for k in combo for l in [k] + val(k, 0)[1]], ms)
    for perm in itertools.permutations(range(4)):
        ms = " ".join("static void F@(%s) { Console.WriteLine(%d); }" % (", ".join("int p%d" % i for i in range(n)), n) for n in perm)
        yield Case("arity %s" % (perm,), " ".join("F@(%s);" % ", ".join("1" * n) for n in range(4)), ["0", "1", "2", "3"], ms)
    for a, b in itertools.permutations(ks[:10], 2):
        for order in ((0, 1), (1, 0)):
            sig = [(a, b), (b, a)]
            ms = " ".join("static void F@(%s p, %s q) { Console.WriteLine(\"%s %s\"); %s %s }" % (T(sig[i][0]), T(sig[i][1]), sig[i][0], sig[i][1], show(sig[i][0], "p"), show(sig[i][1], "q")) for i in order)
            yield Case("overload pair %s %s %s" % (a, b, order), "F@(%s, %s); F@(%s, %s);" % (val(a, 0)[0], val(b, 0)[0], val(b, 0)[0], val(a, 0)[0]),
                       ["%s %s" % (a, b)] + val(a, 0)[1] + val(b, 0)[1] + ["%s %s" % (b, a)] + val(b, 0)[1] + val(a, 0)[1], ms)

SMALL = ["byte", "int", "long", "double", "bool", "S1", "S3", "S12", "Rf"]

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = kinds.DECLS
    ex.explore("parameter lists, static", lists((1, 2), "static"), batch=100)
    ex.explore("parameter lists of 3, static", lists((3,), "static", K17 if deep else SMALL), batch=100)
    if deep: ex.explore("parameter lists of 4, static", lists((4,), "static", SMALL), batch=100)
    for f in FORMS[1:]:
        ex.explore("parameter lists, " + f, lists((1,), f), batch=100)
        ex.explore("parameter lists of 2, " + f, lists((2,), f, K17 if deep else SMALL), batch=100)
        if deep: ex.explore("parameter lists of 3, " + f, lists((3,), f, SMALL), batch=100)
    ex.explore("returns", returns(), batch=100)
    ex.explore("ref and out", refs(), batch=100)
    ex.explore("recursion", rec(), batch=100)
    ex.explore("locals", itertools.chain(locals_(2, K17), locals_(3, K17 if deep else SMALL)), batch=100)
    ex.explore("overloads", overloads(), batch=100)

if __name__ == "__main__":
    main("C09", run, "explicit enumeration of all parameter lists, calling forms, return kinds, reference parameters and frames up to a bound, against a reference model")
