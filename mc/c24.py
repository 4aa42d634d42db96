"""Stack balance: every kind of statement, in every kind of loop and nesting, repeated more often than the stack has units."""
from fw import *
P = itertools.product

DECLS = """
public class A { public int f; public long g; public int[] a; public A nx; public Delegate<int, int> dl; public int M(int x) { return x + f; } public virtual int V(int x) { return x; } public static int T(int x) { return x; } public int P { get { return f; } set { f = value; } } public A() { } public A(int q) { f = q; } public void W() { } public S R() { S s = new S(); s.a = 4; return s; } public A Me() { return this; } public int this[int k] { get { return k; } set { f = value; } } public long Lg(byte b, long l, int i) { return l; } public double Db(double d, byte b) { return d; } public void Big(S s, ref S t, out S u) { u = t; } public int CallD(int x) { return dl(x); } }
public class B : A, I { public override int V(int x) { return x + 1; } public int IF(int x) { return x; } public S IS(S s, byte b) { return s; } public void IV() { } public int Bs(int x) { return base.V(x); } }
public interface I { int IF(int x); S IS(S s, byte b); void IV(); }
public struct S { public int a; public long b; public byte c; public int N() { return a; } public void Set(int x) { a = x; } public S Self(int k) { S s = new S(); s.a = k; return s; } }
public struct S1 { public byte a; }
public struct S5 { public int a; public byte b; }
public enum E { X, Y, Z }
public class X : Exception { public int v; public X() { } public X(int q) { v = q; } }
public class Fn {
 public static void F0() { } public static int F1(int x) { return x; } public static int F2(int x, int y) { return x - y; } public static void R1(ref int x) { x++; } public static void O1(out int x) { x = 3; } public static S SF() { S s = new S(); s.a = 3; return s; } public static S1 SF1(byte b) { S1 s = new S1(); s.a = b; return s; } public static S5 SF5(byte b, long q) { S5 s = new S5(); s.a = 6; return s; } public static void SP(S s) { } public static int SQ(S s, byte b, S t) { return s.a; }
 public static int Th(int x) { throw new X(); } public static S ThS(S s, long l) { throw new X(4); } public static void ThV() { throw new X(); } public static void Cat() { try { Th(1); } catch (Exception e) { } } public static int CatR(int x) { try { return Th(1); } catch (Exception e) { return x; } } public static int Rec(int n) { if (n == 0) return 0; return 1 + Rec(n - 1); } public static long L1(long x) { return x; } public static double D1(double x) { return x; } public static float Fl(float x) { return x; } public static byte By(byte x) { return x; } public static bool Bo(bool x) { return x; } public static object Ob(object x) { return x; } public static string St(string x) { return x; }
 public static int Ap(Delegate<int, int> d, int x) { return d(x); } public static int[] Ar(int[] a) { return a; } public static void RS(ref S s) { s.a++; } public static void OS(out S s) { s = SF(); } public static void RA(ref A a) { a = a.Me(); } public static void RL(ref long a, byte b, ref double d) { a += 1L; } public static int Lp(int n) { for (int k = 0; k < 3; k++) { if (k == n) return k; } return 9; } public static int Sw(int n) { switch (n) { case 0: return 4; case 1: { int q = 4; return q; } default: break; } return 5; } public static void Rt(int n) { if (n > 3) return; int q = n; if (q > 1) { long w = 4L; return; } }
 public static int Ov(int x) { return x; } public static long Ov(long x) { return x; } public static int Ov(int x, byte b) { return x; }
}
"""
VARS = "int x = 1; int y = 2; long l = 1L; double db = 1.0; float fl = 1.0f; byte by = (byte)1; bool bo = true; A o = new B(); B ob = new B(); I q = ob; int[] r = new int[2]; long[] rl = new long[2]; S[] rs = new S[2]; A[] ra = new A[2]; S s = new S(); S t = new S(); S u = new S(); A nu = null; A ao = new A(); I ni = null; int[] nr = null; int[,] m = new int[2, 2]; Delegate<int, int> d = Fn.F1; Delegate<int, int> dv = o.V; object bi = x; object bs = s; E e0 = E.Y; o.dl = Fn.F1; A no = new A(); Delegate<int, int> dn = no.dl; "
CALLS = """F0();¦F1(i);¦x = F1(i);¦F1(F1(i));¦F2(F1(i), F2(i, 3));¦R1(ref x);¦O1(out x);¦int j; O1(out j); x = j;¦s = SF();¦SF();¦SP(s);¦SP(SF());¦x = SF().a;¦x = SF().N();¦SF1(by);¦x = (int)SF1(by).a;¦SF5(by, l);¦x = SF5(by, l).a;¦S5 s5 = SF5(by, l);¦SQ(s, by, t);¦x = SQ(SF(), by, SF());¦RS(ref s);¦OS(out s);¦RA(ref o);¦RL(ref l, by, ref db);¦o.M(i);¦x = o.M(i);¦o.W();¦x = o.V(i);¦o.V(i);¦o.Me().Me().W();¦x = o.Me().f;¦ob.Bs(i);¦q.IF(i);¦x = q.IF(i);¦q.IS(s, by);¦s = q.IS(SF(), by);¦q.IV();¦A.T(i);¦o.Lg(by, l, i);¦l = o.Lg(by, l, i);¦o.Db(db, by);¦db = o.Db(db, by);¦o.Big(s, ref t, out u);¦o.P = i;¦x = o.P;¦o.R();¦s = o.R();¦x = o.R().a;¦s.Set(i);¦x = s.N();¦s.N();¦s.Self(4);¦t = s.Self(4);¦d(i);¦x = d(i);¦x = d(d(i));¦dv(i);¦x = dv(3) + d(4);¦Ap(d, i);¦Ap(F1, i);¦o.CallD(i);¦L1(4L);¦x = (int)L1((long)i);¦D1(2.5);¦db = D1(db);¦Fl(fl);¦fl = Fl(fl);¦By(by);¦by = By(by);¦Bo(bo);¦bo = Bo(true);¦Ob(o);¦bi = Ob(bi);¦Ob(i);¦Ob(s);¦St("a");¦string st = St("b");¦Ar(r);¦x = Ar(r)[0];¦Ar(r)[1] = i;¦Rec(2);¦x = Rec(3);¦Lp(1);¦x = Lp(i);¦Sw(i & 3);¦x = Sw(0) + Sw(1);¦Rt(i & 3);¦Cat();¦CatR(i);¦x = CatR(3) + 1;¦Ov(i);¦Ov(l);¦Ov(i, by);¦Math.Abs(i);¦x = Math.Max(i, 3);¦db = Math.Sqrt(2.0);¦x = r.Length;¦m.GetLength(1);¦new A();¦A z = new A(4);¦x = new A(i).f;¦new A(i).M(3);""".split("¦")
EXPRS = """x = i;¦x++;¦++x;¦x--;¦--x;¦x = x++;¦x = ++x;¦x = (y = 3) + 1;¦x = y = i;¦l++;¦db++;¦by++;¦by += By(by);¦y += 2;¦l += 2L;¦l = l * 3L + 1L;¦db = db / 2.0 + 1.0;¦x = x & 7 | 3 ^ i;¦x <<= 1;¦x = x >> y;¦x = -x; x = ~x;¦bo = !bo;¦x = l > 3L ? 1 : 0;¦x = i > 3 ? 1 : 2;¦x = i > 3 && i < 9 || x == 2 ? F1(1) : F1(2);¦bo = i > 3 && x < 4;¦bo = i > 3 || x < 4 && y > 2;¦o.f = i;¦x = o.f++;¦o.f++;¦o.f += 3;¦o.g++;¦o.g -= 4L;¦x = o.f = i;¦r[1] = i;¦r[1]++;¦x = r[1]--;¦r[i & 1] += 2;¦x = r[0] = i;¦x = r[0];¦rl[1] = l;¦rl[1]++;¦rs[1] = s;¦s = rs[0];¦rs[1].a = i;¦x = rs[0].a++;¦ra[1] = o;¦m[1, 1] = i;¦m[1, i & 1]++;¦m[0, 1] += 4;¦x = m[1, i & 1];¦s.a = i;¦s.a++;¦s.b += 2L;¦x = s.a++;¦t = s;¦t = u = s;¦object b1 = x;¦x = (int)bi;¦bi = i; x = (int)bi;¦bs = s; t = (S)bs;¦x = ((S)bs).a;¦bo = o is B;¦bo = bi is int;¦B b2 = o as B;¦B b3 = (B)o;¦x = ((B)o).V(3);¦I b4 = ob; b4.IV();¦int[] b5 = new int[2];¦int[] b6 = new int[] { 1, i, 3 };¦int[,] b7 = new int[2, i & 3];¦S[] b8 = new S[3];¦S b9 = new S();¦e0 = E.X; bo = e0 == E.Z;¦char c1 = 'a'; bo = c1 == 'b';¦string s1 = "a";¦bo = o == null;¦o = i > 4 ? o : ob;¦Delegate<int, int> d2 = F1;¦Delegate<int, int> d3 = o.V; x = d3(3);¦d = F1;¦o.dl = F1;¦x = (int)l; l = (long)i; db = (double)i; by = (byte)i; fl = (float)i;¦const int k1 = 4; x = k1;¦int v1; v1 = 3; long v2 = 3L; byte v3 = (byte)i; S v4 = s;¦{ int k = i; { long w = 4L; S v = s; } }""".split("¦")
FLOW = """if (i > 5) { x = 1; } else { x = 2; }¦if (i > 5 && F1(i) > 3) { F0(); }¦if (o == null) { x = 1; }¦while (x < 3) { x++; }¦do { x++; } while (x < 0);¦for (int k = 0; k < 2; k++) { F0(); }¦for (int k = 0, h = 3; k < h; k += 2) { S v = s; }¦switch (i & 3) { case 0: x = 1; break; case 1: F0(); break; default: break; }¦switch (i & 1) { case 0: { int k = 4; x = k; break; } case 1: { S v = s; long w = 3L; break; } }¦switch (F1(i & 7)) { case 1: case 2: F1(3); break; case 5: break; }¦switch (e0) { case E.X: x = 1; break; case E.Y: x = 4; break; }¦for (int k = 0; k < 5; k++) { if (k == 2) break; if (k == 1) continue; F0(); }¦for (;;) { int k = 3; if (k > 2) break; }¦for (;;) { switch (i & 1) { case 0: x = 2; break; default: break; } break; }¦continue;¦if (i == 5) { continue; }¦{ int k = i; S v = s; if (k > 5) continue; }¦switch (i & 3) { case 0: continue; case 1: { long w = 3L; continue; } default: break; }""".split("¦")
TRY = """try { x = 1; } catch (Exception e) { x = 2; }¦try { x = 1; } finally { x = 2; }¦try { F0(); } finally { F0(); }¦try { F1(i); } finally { F1(i); }¦try { s = SF(); } finally { SF(); }¦try { x = F1(3); } catch (X e) { x = 2; } catch (Exception e) { x = 4; } finally { int k = 4; F1(k); }¦try { throw new X(); } catch (Exception e) { x = 2; }¦try { throw new X(4); } catch (X e) { x = e.v; }¦try { Th(3); } catch (Exception e) { x = 2; }¦try { ThV(); } catch (SystemException e) { x = 3; } catch (X e) { x = 2; }¦try { x = 3 + Th(3); } catch (Exception e) { x = 2; }¦try { F1(3 + F1(4 + Th(3))); } catch (Exception e) { x = 2; }¦try { SP(ThS(s, l)); } catch (Exception e) { x = 2; }¦try { SQ(SF(), by, ThS(s, l)); } catch (Exception e) { }¦try { o.Lg(by, l, Th(4)); } catch (Exception e) { }¦try { q.IF(Th(4)); } catch (Exception e) { }¦try { d(Th(4)); } catch (Exception e) { }¦try { r[Th(0)] = F1(3); } catch (Exception e) { }¦try { r[0] = Th(3); } catch (Exception e) { }¦try { o.f = 3 + Th(3); } catch (Exception e) { }¦try { s = ThS(SF(), l); } catch (Exception e) { }¦try { x = Rec(2) + Rec(Th(2)); } catch (Exception e) { }¦try { try { Th(1); } finally { x = 2; } } catch (Exception e) { }¦try { try { Th(1); } finally { F1(i); SF(); } } catch (Exception e) { F1(2); }¦try { try { Th(1); } catch (Exception e) { throw; } } catch (Exception e) { }¦try { try { Th(1); } catch (Exception e) { throw new X(2); } } catch (X e) { }¦try { try { Th(1); } catch (SystemException e) { x = 4; } } catch (X e) { }¦try { Th(1); } catch (Exception e) { try { Th(2); } catch (Exception e2) { x = 4; } }¦try { try { x = 3; } finally { Th(1); } } catch (Exception e) { }¦try { x = r[7]; } catch (Exception e) { }¦try { r[7] = 1; } catch (Exception e) { }¦try { r[-1] = F1(4) + 2; } catch (Exception e) { }¦try { r[9]++; } catch (Exception e) { }¦try { m[1, 5] += 3; } catch (Exception e) { }¦try { x = 4 + m[7, 0]; } catch (Exception e) { }¦try { rs[4] = s; } catch (Exception e) { }¦try { rl[3] = l + 3L; } catch (Exception e) { }¦try { x = nu.f; } catch (Exception e) { }¦try { nu.f = 3 + i; } catch (Exception e) { }¦try { nu.f++; } catch (Exception e) { }¦try { nu.g = l; } catch (Exception e) { }¦try { nu.W(); } catch (Exception e) { }¦try { nu.V(F1(i)); } catch (Exception e) { }¦try { ni.IF(F1(i)); } catch (Exception e) { }¦try { ni.IS(s, by); } catch (Exception e) { }¦try { x = 3 + nu.M(i); } catch (Exception e) { }¦try { nr[0] = 1; } catch (Exception e) { }¦try { x = 3 + nr[0]; } catch (Exception e) { }¦try { x = nr.Length; } catch (Exception e) { }¦try { dn(i); } catch (Exception e) { }¦try { x = 3 + dn(F1(i)); } catch (Exception e) { }¦try { B bb = (B)ao; } catch (Exception e) { }¦try { F1(((B)ao).f); } catch (Exception e) { }¦try { long w = (long)bi; } catch (Exception e) { }¦try { continue; } finally { x = 1; }¦try { if (i > 5) { continue; } } finally { x = 1; F1(2); }¦try { for (;;) { break; } } finally { x = 1; }¦for (;;) { try { break; } finally { x = 2; } }¦for (;;) { try { Th(1); } catch (Exception e) { break; } }¦try { Th(1); } catch (Exception e) { continue; }¦try { Th(1); } catch (Exception e) { int k = 4; if (i > 3) continue; S v = s; } finally { F1(3); }""".split("¦")
LOOPS = {"for": "for (int i = 0; i < %N; i++) { %S }", "while": "int i = 0; while (i++ < %N) { %S }", "do": "int i = 0; do { %S } while (i++ < %N);", "for inside": "for (int h = 0; h < 2; h++) { for (int i = 0; i < %N; i++) { %S } }",
         "inside try": "for (int i = 0; i < %N; i++) { try { %S } finally { y = 7; } }", "try outside": "try { for (int i = 0; i < %N; i++) { %S } } finally { y = 7; }", "inside catch": "for (int i = 0; i < %N; i++) { try { throw new X(); } catch (X ex) { %S } }", "inside finally": "for (int i = 0; i < %N; i++) { try { y = 7; } finally { %S } }",
         "case": "for (int i = 0; i < %N; i++) { switch (y) { case 2: { int k9 = 4; %S break; } default: y = 2; break; } }", "else": "for (int i = 0; i < %N; i++) { if (y == 77) { y = 4; } else { long k9 = 4L; %S } }", "in a method": "for (int i = 0; i < %N; i++) { One(i); }"}
UNITS = 1 << 20

def source(loop, st, n):
    st = re.sub(r"(?<![\w.])(F0|F1|F2|R1|O1|SF|SF1|SF5|SP|SQ|Th|ThS|ThV|Cat|CatR|Rec|L1|D1|Fl|By|Bo|Ob|St|Ap|Ar|RS|OS|RA|RL|Lp|Sw|Rt|Ov)(?=\()", r"Fn.\1", st)
    st = re.sub(r"= F1;", "= Fn.F1;", st).replace("(F1,", "(Fn.F1,")
    body = LOOPS[loop].replace("%N", str(n)).replace("%S", st)
    pre = "long g1 = 11L; " + VARS + "byte g2 = (byte)12; "
    chk = "Console.WriteLine(g1); Console.WriteLine(g2); Console.WriteLine(\"end\");"
    if loop == "in a method":
        return "import System;\nusing System;\n" + DECLS + "public class Pr {\nstatic void One(int i) { for (int once = 0; once < 1; once++) { long g1 = 11L; %s byte g2 = (byte)12; %s } }\n[EntryPoint]\npublic static void Main() { long g1 = 11L; byte g2 = (byte)12; %s %s } }\n" % (VARS, st, body, chk)
    return "import System;\nusing System;\n" + DECLS + "public class Pr {\nstatic long Run(int g3, long g4) { %s %s Console.WriteLine(g1); Console.WriteLine(g2); Console.WriteLine(g3); return g4; }\n[EntryPoint]\npublic static void Main() { int g5 = 15; Console.WriteLine(Run(13, 14L)); Console.WriteLine(g5); Console.WriteLine(\"end\"); } }\n" % (pre, body)

def judge(loop, st, opt, n):
    src = source(loop, st, n)
    exp = ["11", "12", "end"] if loop == "in a method" else ["11", "12", "13", "14", "15", "end"]
    r = run_source(src, opt, 120)
    if r.rc == 0 and r.lines() == exp: return None
    return {"src": src, "opt": opt, "exp": exp, "got": r.lines()[:8] + ["rc %s" % r.rc, r.out[-200:]], "detail": "after %d times the statement" % n}

def jobs(loops, sts, opts, n=UNITS + 1000):
    for loop, st, o in P(loops, sts, opts):
        if loop == "inside finally" and re.search(r"continue", st): continue
        yield ("%s -O%d %s" % (loop, o, st), 3, lambda loop=loop, st=st, o=o: judge(loop, st, o, n))

def run(ex, tier):
    deep = tier == "thorough"
    opts = (0, 1, 2, 3) if deep else (0,)
    for name, sts in (("calls", CALLS), ("expressions", EXPRS), ("flow", FLOW), ("exceptions", TRY)):
        ex.check(name, jobs(["for"], sts, (0, 2) if not deep else opts))
    if deep:
        for name, sts in (("calls", CALLS), ("expressions", EXPRS), ("flow", FLOW), ("exceptions", TRY)):
            ex.check(name + " nested", jobs([l for l in LOOPS if l != "for"], sts, (0, 2)))

if __name__ == "__main__":
    main("C24", run, "exhaustive enumeration of statement kinds in loop nestings, each repeated on the real compiler and VM more often than the evaluation stack has units")
