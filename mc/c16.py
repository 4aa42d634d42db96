"""Delegates: every target, way of making, holding and moving a delegate, and context of calling it; the call is the direct call of the method on the object."""
from fw import *
import kinds
from kinds import T, val, show
P = itertools.product

DECLS = kinds.DECLS + """
public interface I { int N(int a); }
public class A : I { public int f; public A(int p) { f = p; }
  public int M(int a) { return f * 10 + a; } public virtual int V(int a) { return f * 100 + a; } public int N(int a) { return f * 1000 + a; } public virtual int W(int a) { return f * 7 + a; }
  public Delegate<int, int> Own() { return M; } public Delegate<int, int> This() { return this.M; } public Delegate<int, int> Vir() { return V; } public int Imp(int a) { var d = M; return d(a) + 1; } public int ImpV(int a) { Delegate<int, int> d = V; return d(a) + 1; } public int Pass(int a) { return H.Ap(M, a); } }
public class B : A { public B(int p) : base(p) { } public override int V(int a) { return f * 10000 + a; } public Delegate<int, int> Bas() { Delegate<int, int> d = base.V; return d; } public int ImpB(int a) { var d = this.M; var e = V; var g = base.V; return d(a) + e(a) * 3 + g(a) * 5; } }
public class C : B { public C(int p) : base(p) { } public override int W(int a) { return f * 9 + a; } }
public class Z : I { public int w; public Z(int p) { w = p; } public int N(int a) { return w - a; } }
public class Hd { public byte pad; public Delegate<int, int> d; public byte pad2; public Delegate<int, int> e; public Delegate<int, int> P { get { return d; } set { d = value; } } public int Call(int a) { return d(a); } }
public class H {
  public static int F(int a) { return a * 2; } public static int G(int a) { int b = 5; long c = 6L; return a - b + (int)c; } public static int Fac(int n) { Delegate<int, int> d = Fac; if (n < 2) return 1; return n * d(n - 1); }
  public static int Ap(Delegate<int, int> d, int a) { return d(a); } public static Delegate<int, int> Id(Delegate<int, int> d) { return d; } public static Delegate<int, int> Two(int n, Delegate<int, int> d, Delegate<int, int> e) { if (n > 0) return d; return e; }
  public static void Set(Delegate<int, int> d, Hd h) { h.d = d; } public static void Sw(ref Delegate<int, int> d, ref Delegate<int, int> e) { Delegate<int, int> t = d; d = e; e = t; }
}
"""
OBJ = "A a = new A(2); A b = new B(3); A c = new C(4); B bb = new B(5); I ia = a; I iz = new Z(900); Z z = new Z(50); object oa = bb; "
# target -> its value on x
TG = {"H.F": lambda x: x * 2, "H.G": lambda x: x + 1, "H.Fac": lambda x: [1, 1, 2, 6, 24, 120, 720, 5040][x], "a.M": lambda x: 20 + x, "b.M": lambda x: 30 + x, "a.V": lambda x: 200 + x, "b.V": lambda x: 30000 + x, "c.V": lambda x: 40000 + x, "bb.V": lambda x: 50000 + x, "a.W": lambda x: 14 + x, "b.W": lambda x: 21 + x, "c.W": lambda x: 36 + x,
      "ia.N": lambda x: 2000 + x, "iz.N": lambda x: 900 - x, "a.N": lambda x: 2000 + x, "z.N": lambda x: 50 - x, "((A)oa).V": lambda x: 50000 + x, "((B)b).M": lambda x: 30 + x,
      "a.Own()": lambda x: 20 + x, "a.This()": lambda x: 20 + x, "c.Vir()": lambda x: 40000 + x, "a.Vir()": lambda x: 200 + x, "bb.Bas()": lambda x: 500 + x, "bb.Own()": lambda x: 50 + x, "new A(6).M": lambda x: 60 + x}
D = "Delegate<int, int>"

MOVES = {"copy": D + " #2 = #1;", "var": "var #2 = #1;", "assign": D + " #2 = H.F; #2 = #1;", "field": "Hd h#2 = new Hd(); h#2.d = #1; %s #2 = h#2.d;" % D, "field2": "Hd h#2 = new Hd(); h#2.e = #1; h#2.d = H.G; %s #2 = h#2.e;" % D, "property": "Hd h#2 = new Hd(); h#2.P = #1; %s #2 = h#2.P;" % D, "array": "%s[] h#2 = new %s[3]; h#2[1] = #1; %s #2 = h#2[1];" % (D, D, D),
         "id": "%s #2 = H.Id(#1);" % D, "two": "%s #2 = H.Two(1, #1, H.F);" % D, "two2": "%s #2 = H.Two(0, H.G, #1);" % D, "set": "Hd h#2 = new Hd(); H.Set(#1, h#2); %s #2 = h#2.d;" % D, "swap": "%s #2 = H.F; %s w#2 = #1; H.Sw(ref #2, ref w#2);" % (D, D), "cond": "%s w#2 = H.F; bool t#2 = true; %s #2 = t#2 ? #1 : w#2;" % (D, D)}

def made():
    """Every target by every way of making the delegate."""
    for t, f in TG.items():
        call = t.endswith("()")
        for mk in ("var d = %s;", D + " d = %s;", D + " d; d = %s;", D + " d = H.F; d = %s;", "Hd h = new Hd(); h.d = %s; var d = h.d;", "%s[] h = new %s[2]; h[1] = %%s; var d = h[1];" % (D, D), "var d = H.Id(%s);", "Hd h = new Hd(); h.P = %s; var d = h.P;"):
            yield Case("made %s %s" % (mk, t), OBJ + mk % t + " Console.WriteLine(d(3)); Console.WriteLine(d(5)); Console.WriteLine(d.Invoke(4));", [str(f(3)), str(f(5)), str(f(4))])
        yield Case("passed %s" % t, OBJ + "Console.WriteLine(H.Ap(%s, 3)); int q = 7; Console.WriteLine(q + H.Ap(%s, 4) * 2);" % (t, t), [str(f(3)), str(7 + f(4) * 2)])
    for o, f in (("a", 2), ("b", 3), ("c", 4), ("bb", 5)):
        v = {"a": 200, "b": 30000, "c": 40000, "bb": 50000}[o]
        yield Case("implied this %s" % o, OBJ + "Console.WriteLine(%s.Imp(3)); Console.WriteLine(%s.ImpV(4)); Console.WriteLine(%s.Pass(6));" % (o, o, o), [str(f * 10 + 4), str(v + 5), str(f * 10 + 6)])
    yield Case("base", OBJ + "Console.WriteLine(bb.ImpB(1));", [str(51 + 3 * 50001 + 5 * 501)])

def moved(deep):
    """A delegate moved along every chain of holders is still the same method on the same object."""
    for n in (1, 2, 3) if deep else (1, 2):
        for ms in P(MOVES, repeat=n):
            for t in (["H.F", "a.M", "c.V", "iz.N", "H.Fac", "bb.Bas()"] if n < 3 else ["H.G", "c.V"]):
                body = OBJ + "var d0 = %s; " % t
                for i, m in enumerate(ms): body += MOVES[m].replace("#1", "d%d" % i).replace("#2", "d%d" % (i + 1)) + " "
                f = TG[t]
                body += "Console.WriteLine(d%d(3)); d0 = H.G; Console.WriteLine(d%d(5)); Console.WriteLine(1 + d%d(2));" % (n, n, n)
                yield Case("moved %s %s" % (t, " ".join(ms)), body, [str(f(3)), str(f(5)), str(1 + f(2))])

def histories(deep):
    """Delegates are values: every history of assignments over three variables, a field and an element."""
    V = ["d", "e", "h.d", "g[1]"]
    OPS = [(v, t) for v in V for t in ("H.F", "a.M", "b.V")] + [(v, w) for v in V for w in V if v != w]
    tails = [("a.f = 9;", "f"), ("", "")]
    for n in (1, 2, 3) if deep else (1, 2):
        for ops in P(OPS, repeat=n):
            st = {"d": "H.G", "e": "iz.N", "h.d": "c.W", "g[1]": "H.F"}
            body = OBJ + "Hd h = new Hd(); %s[] g = new %s[2]; %s d = H.G; %s e = iz.N; h.d = c.W; g[1] = H.F; " % (D, D, D, D)
            for v, w in ops:
                body += "%s = %s; " % (v, w); st[v] = st.get(w, w)
            for change, _ in tails[:1 if n > 1 else 2]:
                b2 = body + change + " var y = h.d; var x = g[1]; Console.WriteLine(d(3)); Console.WriteLine(e(3)); Console.WriteLine(y(3)); Console.WriteLine(x(3)); Console.WriteLine(h.Call(4));"
                g = lambda v, q: str(90 + q if change and st[v] == "a.M" else TG[st[v]](q))
                yield Case("history %s %s" % (" ".join("%s=%s" % o for o in ops), change), b2, [g(v, 3) for v in V] + [g("h.d", 4)])

CX = {"print": ("Console.WriteLine(@);", "{0}"), "local": ("int r = @; Console.WriteLine(r);", "{0}"), "right": ("int r = p + @; Console.WriteLine(r);", "{0}+7"), "left": ("int r = @ + p; Console.WriteLine(r);", "{0}+7"), "deep": ("int r = p - (p * (p - @)); Console.WriteLine(r);", "7-(7*(7-{0}))"), "both": ("Console.WriteLine(@ - 3 * @);", "{0}-3*{0}"), "argument": ("Console.WriteLine(H.F(@));", "2*{0}"),
      "arguments": ("Console.WriteLine(L3@@(1, @, p));", None), "if": ("if (@ > 0) Console.WriteLine(1); else Console.WriteLine(2);", "1 if {0} > 0 else 2"), "while": ("int i = 0; while (@ + i < 3 + @) i++; Console.WriteLine(i);", "3"), "for": ("int r = 0; for (int i = 0; i < 4; i++) r += @; Console.WriteLine(r);", "4*{0}"), "cond": ("int r = p > 3 ? @ : 0; Console.WriteLine(r);", "{0}"), "index": ("int[] w = new int[3]; w[@ - @ + 1] = @; Console.WriteLine(w[1]); Console.WriteLine(w[0] + w[2]);", "[{0}, 0]"), "field": ("a.f = @; Console.WriteLine(a.f);", "{0}"), "compound": ("int r = 5; r += @; r *= 2; Console.WriteLine(r);", "(5+{0})*2"), "discard": ("@; @; Console.WriteLine(p);", "7"), "box": ("object o = @; Console.WriteLine(o is int); Console.WriteLine((int)o);", "['True', {0}]"), "long": ("long r = @; Console.WriteLine(r + 5000000000L);", "{0}+5000000000"), "double": ("double r = @; Console.WriteLine(r + 0.5);", "str({0}+0.5)"), "cast": ("byte r = (byte)@; Console.WriteLine(r);", "{0}&255"), "minus": ("Console.WriteLine(-@);", "-({0})"), "not": ("Console.WriteLine(!(@ == p));", "str({0}!=7)"),
      "switch": ("switch (@) { case 23: Console.WriteLine(\"23\"); break; default: Console.WriteLine(\"other\"); break; }", "'23' if {0}==23 else 'other'"), "nested": ("Console.WriteLine(H.Ap(x, 1) + @);", "2 + {0}"), "and": ("Console.WriteLine(p == 7 && @ > 10);", "str({0}>10)"), "array": ("int[] w = new int[]{1, @, p}; Console.WriteLine(w[0] + w[1] + w[2]);", "8+{0}"), "return": ("Console.WriteLine(R@@(%));", None), "chain": ("int r; int s; r = s = @; Console.WriteLine(r + s);", "2*{0}"), "element": ("int[] w = new int[2]; w[1] = @; w[0] = w[1] + @; Console.WriteLine(w[0]);", "2*{0}")}

def contexts():
    """A call of a delegate in every context of use, with operands pending."""
    for t, f in TG.items():
        for cx, (code, e) in CX.items():
            if e is None: continue
            mem = ""
            v = f(3)
            ex_ = eval(e.format("(%d)" % v))
            exp = [str(x) for x in (ex_ if isinstance(ex_, list) else [ex_])]
            yield Case("context %s %s" % (cx, t), OBJ + "var x = H.F; int p = 7; long q = 8L; var d = %s; %s Console.WriteLine(p); Console.WriteLine(q);" % (t, code.replace("@", "d(3)")), exp + ["7", "8"], mem)

K = ["sbyte", "byte", "ushort", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string", "En", "S1", "S3", "S12", "SN", "SR", "Rf", "obj", "arr"]
def kindsof(deep):
    """Every parameter list and return kind, by delegates of static, instance, virtual and interface methods, made in each way."""
    lists = [()] + [(k,) for k in K] + [x for x in P(K, repeat=2)] + ([x for x in P(["byte", "long", "S3", "SN", "Rf", "double"], repeat=3)] if deep else [])
    for ks in lists:
        args = [val(k, i) for i, k in enumerate(ks)]
        pl = ", ".join("%s p%d" % (T(k), i) for i, k in enumerate(ks)); shows = " ".join(show(k, "p%d" % i) for i, k in enumerate(ks))
        al = ", ".join(a[0] for a in args); lines = [l for a in args for l in a[1]]
        for r in (K if len(ks) < 2 else ["int", "S3"]) + ["void"]:
            if r == "void": rt, rv, rl = "void", "", []
            else: rt = T(r); rv, rl = val(r, 1)
            dt = "Delegate<%s>" % ", ".join([rt] + [T(k) for k in ks])
            use = lambda d: ("%s(%s);" % (d, al) if r == "void" else "%s r = %s(%s); %s" % (rt, d, al, show(r, "r")))
            decl = "public interface J@ { %s Q(%s); } public class X@ : J@ { public int z; public %s F(%s) { long w = 3L; z++; %s return %s; } public virtual %s V(%s) { z = 100; return %s; } public %s Q(%s) { z++; %s return %s; } } public class Y@ : X@ { public override %s V(%s) { z++; byte w = (byte)3; %s return %s; } }" % (rt, pl, rt, pl, shows, rv, rt, pl, rv, rt, pl, shows, rv, rt, pl, shows, rv)
            mem = "static %s F@(%s) { int w = 1; long u = 2L; %s return %s; }" % (rt, pl, shows, rv)
            body = "X@ o = new Y@(); J@ j = o; long q = 5L; %s d = F@; { %s } d = o.F; { %s } d = o.V; { %s } d = j.Q; { %s } var e = F@; { %s } %s Console.WriteLine(o.z); Console.WriteLine(q);" % (dt, use("d"), use("d"), use("d"), use("d"), use("e"), "d(%s);" % al)
            yield Case("kinds %s(%s)" % (r, ", ".join(ks)), body, (lines + rl) * 5 + lines + ["4", "5"], mem, decl)

def faults():
    """Exceptions pass through delegate calls; a delegate of nothing or of a null object raises NullReferenceException."""
    decl = "public class Q@ { public int f; public Delegate<int, int> none; public int T(int a) { f = f + 1; if (a > 2) throw new OutOfRangeException(); return a; } public virtual int V(int a) { int[] x = new int[2]; return x[a]; } public int M(int a) { return f; } public int Non(int a) { return none(a); } public int Fin(int a) { Delegate<int, int> d = T; try { return d(a) + 5; } finally { f = f + 10; } } } public interface J@ { int N(int a); }"
    mem = "static int S@(int a) { Q@ q = null; return q.f; } static int Th@(int a) { throw new InvalidCastException(); } static int Dp@(int a) { Delegate<int, int> d = Dp@; if (a == 0) throw new OutOfRangeException(); return 1 + d(a - 1); }"
    pre = "Q@ k = new Q@(); Q@ n = null; J@ nj = null; int p = 7; "
    for mk, exc in (("k.T", "R"), ("k.V", "R"), ("S@", "N"), ("Th@", "C"), ("n.T", "N"), ("n.M", "N"), ("n.V", "N"), ("nj.N", "N"), ("k.none", "N"), ("k.Non", "N"), ("k.Fin", "R"), ("Dp@", "R")):
        for use in ("d(3);", "p = d(3);", "p = 5 + d(3);", "p = p - (p * d(3));", "Console.WriteLine(d(3));", "if (d(3) > 2) p = 9;", "object o = d(3);", "p = H.Ap(d, 3);", "p += d(3);", "for (int i = 0; i < d(3); i++) p = 1;", "k.f = d(3);"):
            f = {"k.T": 1, "k.Fin": 11}.get(mk, 0)
            yield Case("fault %s %s" % (mk, use), pre + "Delegate<int, int> d = %s; try { %s Console.WriteLine(\"no\"); } catch (OutOfRangeException x) { Console.WriteLine(\"R\"); } catch (NullReferenceException x) { Console.WriteLine(\"N\"); } catch (InvalidCastException x) { Console.WriteLine(\"C\"); } Console.WriteLine(p); Console.WriteLine(k.f); d = H.F; Console.WriteLine(1 + d(4));" % (mk, use), [exc, "7", str(f), "9"], mem, decl)
    yield Case("no fault", pre + "Delegate<int, int> d = k.Fin; Console.WriteLine(d(1)); Console.WriteLine(k.f); d = Dp@; try { d(40); } catch (Exception x) { Console.WriteLine(\"E\"); }", ["6", "11", "E"], mem, decl)

def recursion():
    for n in range(8):
        yield Case("fac %d" % n, "Delegate<int, int> d = H.Fac; Console.WriteLine(d(%d)); Console.WriteLine(2 * d(%d) + 1);" % (n, n), [str(TG["H.Fac"](n)), str(2 * TG["H.Fac"](n) + 1)])
    fib = [0, 1]
    for i in range(20): fib.append(fib[-1] + fib[-2])
    for kind, decl, mem, mk in (("static", "", "static int Fb@(int n) { Delegate<int, int> d = Fb@; return n < 2 ? n : d(n - 1) + d(n - 2); }", "Fb@"), ("instance", "public class R@ { public int Fb(int n) { Delegate<int, int> d = Fb; return n < 2 ? n : d(n - 1) + d(n - 2); } }", "", "new R@().Fb"), ("virtual", "public class R@ { public virtual int Fb(int n) { return 0; } } public class U@ : R@ { public override int Fb(int n) { R@ r = this; Delegate<int, int> d = r.Fb; return n < 2 ? n : d(n - 1) + d(n - 2); } }", "", "new U@().Fb"),
                                ("passed", "", "static int Fb@(int n) { return Go@(Fb@, n); } static int Go@(Delegate<int, int> d, int n) { return n < 2 ? n : d(n - 1) + d(n - 2); }", "Fb@"), ("mutual", "public class R@ { public Delegate<int, int> o; public int Fb(int n) { return n < 2 ? n : o(n - 1) + o(n - 2); } }", "static int Sb@(int n) { R@ r = new R@(); r.o = Sb@; if (n < 2) return n; Delegate<int, int> d = r.Fb; return d(n); }", "Sb@")):
        for n in (0, 1, 2, 3, 5, 8, 11):
            yield Case("fib %s %d" % (kind, n), "Delegate<int, int> d = %s; int a = 4; Console.WriteLine(a * d(%d) + a); Console.WriteLine(a);" % (mk, n), [str(4 * fib[n] + 4), "4"], mem, decl)

def choice():
    """The delegate's type chooses among overloads."""
    ts = ["int", "long", "double", "string", "byte", "bool"]
    mem = " ".join("static %s O@(%s a) { Console.WriteLine(\"%s\"); return a; }" % (t, t, t) for t in ts) + " static int O@(int a, int b) { Console.WriteLine(\"two\"); return a + b; } static int O@() { Console.WriteLine(\"none\"); return 8; }"
    for t in ts:
        v, l = val(t, 0)
        yield Case("choice %s" % t, "Delegate<%s, %s> d = O@; %s" % (t, t, show(t, "d(%s)" % v)), [t] + l, mem)
    yield Case("choice two", "Delegate<int, int, int> d = O@; Console.WriteLine(d(3, 4)); Delegate<int> e = O@; Console.WriteLine(e());", ["two", "7", "none", "8"], mem)

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = DECLS
    ex.explore("targets", made(), batch=30)
    ex.explore("moves", moved(deep), batch=30)
    ex.explore("histories", histories(deep), batch=30)
    ex.explore("contexts", contexts(), batch=40)
    ex.explore("kinds", kindsof(deep), batch=8)
    ex.explore("faults", faults(), batch=20)
    ex.explore("recursion", recursion(), batch=20)
    ex.explore("overloads", choice(), batch=4)

if __name__ == "__main__":
    main("C16", run, "explicit enumeration of delegate targets, holders, histories and call contexts on the real compiler and VM against a model of delegates as pairs of object and method")
