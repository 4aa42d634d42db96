"""Faults: every use of null, of an index out of range or of a wrong cast raises its exception, in every context, and the program goes on from the handler."""
from fw import *
import functools
def src_of(body, members, decls): return "import System;\nusing System;\n" + decls + "public class P { %s\n[EntryPoint]\npublic static void Main() { %s } }\n" % (members, body)

DECLS = """
public struct S { public int x; public byte b; public S(int p) { x = p; b = (byte)1; } public int Get() { return x; } }
public interface I { int Im(); }
public class K : I { public int f; public sbyte g; public long l; public double d; public string t; public K next; public S s; public int[] a; public object o;
  public int P { get { return f; } set { f = value; } } public int M() { return f; } public int A(int p, long q) { return f + p; } public virtual int V() { return f; } public int Im() { return f; } public void Vo() { f = f + 1; } public S Gs() { return s; } public virtual void Vv(int q) { f = q; } }
public class B : K { public int more; public override int V() { return 5; } }
public class Z : I { public int w; public int Im() { return w; } }
public class Q { public int v; public Q(int p) { v = p; } public int M(int p) { v = v + p; return v; } public int P { get { return v; } set { v = value; } } }
public class U {
  public static int T(int v) { Console.WriteLine(v); return v; }
  public static int T3(int a, int b, int c) { Console.WriteLine("t3"); return a; }
  public static K Nul() { return null; } public static int[] NulA() { return null; } public static object NulO() { return null; } public static I NulI() { return null; }
  public static void Ob(object o) { Console.WriteLine("ob"); }
}
"""
# every variable a fault uses; declared in each method that has one
VARS = "K n = null; B nb = null; I ni = null; int[] na = null; long[,] nm = null; S[] ns = null; K[] nk = new K[2]; object no = null; K k = new K(); k.f = 3; k.next = null; K[] ka = new K[2]; ka[0] = k; int[] a = new int[3]; int[,] m = new int[2, 3]; S[] sa = new S[2]; byte[] by = new byte[1]; object os = (object)\"s\"; object oi = (object)7; object ok = k; object oz = new Z(); I iz = new Z(); S s = new S(4); Q q = new Q(1); int z = 0; int y = 0; bool b = true; int c = 2; "
N, R, C = "NullReferenceException", "OutOfRangeException", "InvalidCastException"
E = {"n.f": N, "n.g": N, "n.P": N, "n.M()": N, "n.A(1, 2L)": N, "n.V()": N, "nb.V()": N, "nb.f": N, "nb.more": N, "ni.Im()": N, "n.s.x": N, "n.s.Get()": N, "n.Gs().x": N, "na[0]": N, "na.Length": N, "na.GetLength(0)": N, "nm.Length": N, "ns[0].x": N, "ns[1].Get()": N, "nk[1].f": N, "nk[0].M()": N, "nk[1].V()": N,
     "k.next.f": N, "k.next.next.f": N, "k.next.M()": N, "k.a[0]": N, "k.a.Length": N, "k.next.a[1]": N, "U.Nul().f": N, "U.Nul().M()": N, "U.Nul().V()": N, "U.Nul().P": N, "U.NulA()[0]": N, "U.NulA().Length": N, "U.NulI().Im()": N, "((K)no).f": N, "((I)no).Im()": N, "(int)no": N, "((S)no).x": N, "(int)k.o": N, "(int)U.NulO()": N,
     "a[3]": R, "a[-1]": R, "a[c + 1]": R, "a[c - 3]": R, "m[2, 0]": R, "m[0, 3]": R, "m[1, -1]": R, "sa[2].x": R, "sa[-1].Get()": R, "ka[2].f": R, "a[a[2] - 1]": R, "m[c, 1]": R, "a[2147483647]": R, "m.GetLength(2)": R,
     "(int)os": C, "(int)ok": C, "((B)ok).more": C, "((B)k).V()": C, "((Z)ok).w": C, "((K)oz).f": C, "((K)iz).f": C, "((I)os).Im()": C, "((int[])ok)[0]": C, "((Z)oi).w": C, "(int)(object)5L": C, "((int[,])(object)a).Length": C}
ST = {"n.f = 1;": N, "n.P = 1;": N, "n.f++;": N, "++n.f;": N, "n.f += 2;": N, "n.s.x = 3;": N, "n.s = s;": N, "n.next = k;": N, "n.Vo();": N, "nb.Vo();": N, "n.Vv(3);": N, "ni.Im();": N, "n.M();": N, "n.V();": N, "n.l = 5L;": N, "n.d = 1.5;": N, "n.t = \"x\";": N, "n.g = (sbyte)1;": N, "n.o = 5;": N, "na[0] = 1;": N, "na[0]++;": N, "na[0] += 3;": N, "nm[0, 0] = 4L;": N, "ns[0].x = 1;": N, "ns[0] = s;": N,
      "nk[1].f = 2;": N, "nk[0].P = 2;": N, "nk[1].Vo();": N, "k.next.f = 4;": N, "k.next.next = k;": N, "k.next.Vo();": N, "k.a[0] = 1;": N, "U.Nul().f = 5;": N, "U.Nul().Vo();": N, "U.Nul().P = 1;": N, "U.NulA()[0] = 4;": N, "U.NulI().Im();": N, "s = (S)no;": N, "s = (S)U.NulO();": N, "((K)no).f = 1;": N, "throw null;": N,
      "a[3] = 1;": R, "a[-1] = 1;": R, "a[3]++;": R, "a[c + 1] += 2;": R, "m[2, 0] = 1;": R, "m[1, 3]++;": R, "sa[2].x = 3;": R, "sa[2] = s;": R, "sa[-1].b = (byte)1;": R, "ka[2] = k;": R, "ka[-1].f = 1;": R, "by[1] = (byte)2;": R, "y = a[0] = a[3] = 5;": R, "int[] w = new int[-1];": R, "int[] w = new int[c - 5];": R, "int[,] w = new int[2, 0 - c];": R,
      "B w = (B)ok;": C, "K w = (K)oz;": C, "I w = (I)os;": C, "nb = (B)k;": C, "Z w = (Z)iz; w = (Z)ok;": C, "string w = (string)oi;": C, "long w = (long)oi;": C, "int[] w = (int[])ok;": C, "K[] w = (K[])(object)a;": C}
CX = {"assign": "z = @;", "local": "int w = @;", "argument": "U.T(@);", "arguments": "U.T3(1, @, 2);", "last argument": "U.T3(U.T(6), 3, @);", "right": "z = 5 + @;", "left": "z = @ + 5;", "after call": "z = U.T(9) + @;", "pending": "z = c + (c * (c + @));", "if": "if (@ > 0) U.T(1); else U.T(2);", "while": "while (@ > 0) U.T(1);", "do": "do { y = 1; } while (@ > 0);", "for": "for (int e = 0; e < @; e++) U.T(1);",
      "index": "z = a[@];", "index 2": "z = m[1, @];", "element": "a[0] = @;", "field": "k.f = @;", "struct field": "s.x = @;", "property": "q.P = @;", "method": "z = q.M(@);", "object argument": "U.Ob(@);", "new": "q = new Q(@);", "new struct": "s = new S(@);", "cond": "z = b ? @ : 1;", "cond test": "z = @ > 0 ? 1 : 2;", "chain": "z = y = @;", "compound": "z += @;", "minus": "z = -@;", "not": "b = !(@ == 0);", "and": "b = b && @ > 0;", "or": "b = !b || @ > 0;",
      "switch": "switch (@) { case 0: U.T(1); break; default: U.T(2); break; }", "box": "object w = @;", "long": "long w = @;", "double": "double w = @;", "length": "int[] w = new int[@];", "initialiser": "int[] w = new int[]{1, @, 2};", "cast": "byte w = (byte)(@);", "compare": "b = 3 < @;", "print": "Console.WriteLine(@);"}

def show(extra=""): return " Console.WriteLine(\"after\"); Console.WriteLine(k.f); Console.WriteLine(s.x); Console.WriteLine(z); Console.WriteLine(y); Console.WriteLine(q.v); Console.WriteLine(b); Console.WriteLine(c); Console.WriteLine(a[0] + a[1] + a[2] + m[0, 0] + m[1, 2]); Console.WriteLine(k.V());"
AFTER = ["after", "3", "4", "0", "0", "1", "True", "2", "0", "3"]
SIDE = {"last argument": ["6"], "after call": ["9"]}
def catch(x): return " catch (%s x) { Console.WriteLine(\"%s\"); }" % (x, x[0])

def y_of(cn): return "1" if cn == "do" else "0"
def after(cn=""):
    l = list(AFTER); l[4] = y_of(cn); return l

def contexts():
    """Every fault in every context, caught in the same method."""
    for e, x in E.items():
        for cn, cx in CX.items():
            f = cx.replace("@", "(%s)" % e if e.startswith("(") and not e.startswith("((") else e)
            yield Case("%s: %s" % (cn, e), VARS + "try { %s Console.WriteLine(\"no\"); }%s" % (f, catch(x)) + show(), SIDE.get(cn, []) + [x[0]] + after(cn))
    for f, x in ST.items():
        yield Case(f, VARS + "try { %s Console.WriteLine(\"no\"); }%s" % (f, catch(x)) + show(), [x[0]] + AFTER)

OTHER = {N: (R, C), R: (N, C), C: (N, R)}
def handlers():
    """Every fault under every kind of handler: by its own type, by a base, passed over by others, with finally, in callees, with operands pending in the callers."""
    fs = [("z = %s;" % e if not (e.startswith("(") and not e.startswith("((")) else "z = %s;" % e, x) for e, x in E.items()] + list(ST.items())
    for f, x in fs:
        o1, o2 = OTHER[x]
        V = VARS
        no = " Console.WriteLine(\"no\");"
        pr = "Console.WriteLine(\"%s\");"
        H = {"base": ("try { %s%s } catch (SystemException w) { %s }" % (f, no, pr % "b"), ["b"]), "Exception": ("try { %s%s } catch (Exception w) { %s }" % (f, no, pr % "e"), ["e"]), "any": ("try { %s%s } catch { %s }" % (f, no, pr % "a"), ["a"]),
             "others first": ("try { %s%s }%s%s%s catch (Exception w) { %s }" % (f, no, catch(o1), catch(o2), catch(x), pr % "e"), [x[0]]), "passes": ("try { try { %s%s }%s%s finally { %s } }%s" % (f, no, catch(o1), catch(o2), pr % "f", catch(x)), ["f", x[0]]),
             "finally": ("try { try { %s%s } finally { %s } %s }%s finally { %s }" % (f, no, pr % "f", pr % "no", catch(x), pr % "g"), ["f", x[0], "g"]), "in catch": ("try { try { throw new Exception(); } catch (Exception e1) { %s%s } finally { %s } }%s" % (f, no, pr % "f", catch(x)), ["f", x[0]]),
             "in finally": ("try { try { %s } finally { %s%s } }%s" % (pr % "t", f, no, catch(x)), ["t", x[0]]), "in loop": ("for (int r = 0; r < 3; r++) { try { if (r == 1) continue; %s%s }%s finally { %s } }" % (f, no, catch(x), pr % "f"), [x[0], "f", "f", x[0], "f"]),
             "rethrown": ("try { try { %s%s } catch (Exception w) { %s throw; } }%s" % (f, no, pr % "r", catch(x)), ["r", x[0]]), "type": ("try { %s%s } catch (Exception w) { Console.WriteLine(w is %s); Console.WriteLine(w is SystemException); Console.WriteLine(w is %s); }" % (f, no, x, o1), ["True", "True", "False"])}
        for hn, (code, exp) in H.items(): yield Case("%s: %s" % (hn, f), V + code + show(), exp + AFTER)
        # in a callee, pending operands and locals of the callers stay
        mem = "static int Fa@(int p, long r) { %s %s%s return 1; } static int Mid@(int p) { int w = p + 1; long l = 9L; int t = w * 100 + Fa@(p, l); return t; } static int Own@(int p) { int w = p * 2; %s try { %s%s }%s return w; }" % (V, f, no, V, f, no, catch(x))
        yield Case("callee: " + f, "int u = 50; int t = 0; try { t = 7 + Fa@(1, 2L); Console.WriteLine(\"no\"); }%s Console.WriteLine(t); Console.WriteLine(u);" % catch(x), [x[0], "0", "50"], members=mem)
        yield Case("callee of callee: " + f, "int u = 50; int t = 3; try { t = 7 + u * (2 + Mid@(1)); Console.WriteLine(\"no\"); }%s finally { Console.WriteLine(\"f\"); } Console.WriteLine(t); Console.WriteLine(u);" % catch(x), [x[0], "f", "3", "50"], members=mem)
        yield Case("caught in callee: " + f, "int u = 50; int t = 7 + u * (2 + Own@(4)) + Own@(u); Console.WriteLine(t); Console.WriteLine(u);", [x[0], x[0], str(7 + 50 * 10 + 100), "50"], members=mem)

def pairs():
    """Two faults after each other, of any two kinds, in any two contexts of a few."""
    es = ["n.f", "n.V()", "ni.Im()", "na[0]", "a[3]", "m[0, 3]", "(int)os", "((B)ok).more", "(int)no"]
    cs = ["assign", "arguments", "after call", "while", "object argument", "initialiser"]
    for (e1, c1), (e2, c2) in itertools.product(itertools.product(es, cs), repeat=2):
        p = lambda e: "(%s)" % e if e.startswith("(") and not e.startswith("((") else e
        yield Case("%s: %s then %s: %s" % (c1, e1, c2, e2), VARS + "try { %s Console.WriteLine(\"no\"); }%s try { %s Console.WriteLine(\"no\"); }%s" % (CX[c1].replace("@", p(e1)), catch(E[e1]), CX[c2].replace("@", p(e2)), catch(E[e2])) + show(), SIDE.get(c1, []) + [E[e1][0]] + SIDE.get(c2, []) + [E[e2][0]] + AFTER)

def good():
    """Near misses: the same accesses on objects that are there raise nothing."""
    g = {"n": "k", "nb": "bb", "ni": "k", "na": "a", "nm": "lm", "ns": "sa", "nk": "full"}
    pre = VARS + "B bb = new B(); long[,] lm = new long[1, 1]; K[] full = new K[2]; full[0] = k; full[1] = k; k.next = k; k.a = new int[2]; k.o = (object)3; k.s = s; "
    vals = {"k.f": "3", "k.g": "0", "k.P": "3", "k.M()": "3", "k.A(1, 2L)": "4", "k.V()": "3", "bb.V()": "5", "bb.f": "0", "bb.more": "0", "((I)k).Im()": "3", "k.s.x": "4", "k.s.Get()": "4", "k.Gs().x": "4", "a[0]": "0", "a[2]": "0", "a.Length": "3", "a.GetLength(0)": "3", "lm.Length": "1", "sa[0].x": "0", "sa[1].Get()": "0", "full[1].f": "3", "full[0].M()": "3", "k.next.f": "3", "k.next.next.f": "3", "k.a[1]": "0", "(int)k.o": "3", "(int)oi": "7", "((K)ok).f": "3", "((I)oz).Im()": "0", "m[1, 2]": "0", "m[0, 0]": "0", "((Z)iz).w": "0", "((int[])(object)a).Length": "3", "m.GetLength(1)": "3"}
    for e, v in vals.items():
        p = "(%s)" % e if e.startswith("(") and not e.startswith("((") else e
        yield Case("good " + e, pre + "try { z = %s; Console.WriteLine(z); Console.WriteLine(%s); U.T(%s); Console.WriteLine(1 + %s); } catch (Exception x) { Console.WriteLine(\"E\"); }" % (p, p, p, p), [v, v, v, str(int(v) + 1)])
    for nul in ("n == null", "na == null", "no == null", "ni == null", "nk[0] == null", "k.next == k", "no is K == false", "(no as K) == null", "(K)no == null", "(I)n == null", "(object)na == null"):
        yield Case("good " + nul, pre + "try { Console.WriteLine(%s); if (%s) U.T(1); } catch (Exception x) { Console.WriteLine(\"E\"); }" % (nul, nul), ["True", "1"])

def uncaught(ex):
    """A fault nobody catches runs the finally blocks and ends the program with a report; nothing after it runs."""
    def one(src, opt, exp, name):
        r = run_source(src, opt)
        ls = r.lines()
        if ls[:-1] == exp and ls[-1].startswith("Uncaught Exception:") and name in ls[-1]: return None
        return {"src": src, "opt": opt, "exp": exp + ["Uncaught Exception: " + name], "got": ls, "detail": "exit code %s" % r.rc}
    for f, x in list(ST.items()) + [("z = %s;" % e, x) for e, x in E.items()]:
        for opt in (0, 2):
            src = src_of("Console.WriteLine(\"1\"); try { Go(3); Console.WriteLine(\"no\"); }%s finally { Console.WriteLine(\"f\"); } Console.WriteLine(\"no\");" % catch(OTHER[x][0]), "static int Go(int p) { %s try { Console.WriteLine(p); %s Console.WriteLine(\"no\"); } finally { Console.WriteLine(\"g\"); } return z; }" % (VARS, f), DECLS)
            yield ("uncaught %s O%d" % (f, opt), 5, functools.partial(one, src, opt, ["1", "3", "g", "f"], x))

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = DECLS
    ex.explore("faults in contexts", contexts(), batch=30)
    ex.explore("faults and handlers", handlers(), batch=30)
    ex.explore("two faults", pairs(), batch=40)
    ex.check("uncaught faults", uncaught(ex))
    ex.explore("no faults", good(), batch=20)

if __name__ == "__main__":
    main("C15", run, "explicit enumeration of all faulting accesses x contexts x handler structures on the real compiler and VM")
