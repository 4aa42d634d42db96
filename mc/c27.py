"""C27: programs mean the same at every size: any number, depth, length and distance of every construct."""
from fw import *

def w(i): return (i * 7 + 3) % 1000   # a distinct-looking value for the i-th thing

def prog(body, decls="", mem=""):
    return "import System;\nusing System;\n%s\nclass P {\n%s\n[EntryPoint]\npublic static void Main() {\n%s\n}\n}\n" % (decls, mem, body)

def sumup(xs, t="int", zero="0"):
    """Statements that combine expressions so that a swap of any two shows."""
    return "%s s = %s; " % (t, zero) + "".join("s = s * 3 + %s; if (s > 1000000) s = s %% 1000003; " % x for x in xs) + "Console.WriteLine(s); "

def fold(vs):
    s = 0
    for v in vs:
        s = s * 3 + v
        if s > 1000000: s = s % 1000003
    return [str(s)]

def j(f, n, sep=""): return sep.join(f(i) for i in range(n))

DIMS = {}
def dim(top=257, name=None, low=1):
    def d(f):
        DIMS[name or f.__name__.replace("_", " ")] = (f, low, top); return f
    return d

# every function: size -> (source, expected lines)

@dim(2049)
def locals_(n):
    return prog(j(lambda i: "int a%d = %d; " % (i, w(i)), n) + sumup(["a%d" % i for i in range(n)])), fold(map(w, range(n)))

TY = [("int", "%d"), ("long", "%dL"), ("byte", "(byte)%d"), ("double", "%d.0"), ("short", "(short)%d"), ("S", "new S(%d)"), ("R", "new R(%d)"), ("float", "%d.0f"), ("sbyte", "(sbyte)%d")]
SR = "public struct S { public byte a; public long v; public S(int p) { a = (byte)1; v = (long)p; } }\npublic class R { public int v; public R(int p) { v = p; } }\n"
def ty(i): return TY[i % len(TY)][0]
def iv(i): return TY[i % len(TY)][1] % (w(i) % 100)
def rd(e, i): return "(int)(%s%s)" % (e, ".v" if ty(i) in "SR" else "")
def ev(i): return w(i) % 100

@dim(1025)
def mixed_locals(n):
    return prog(j(lambda i: "%s a%d = %s; " % (ty(i), i, iv(i)), n) + sumup([rd("a%d" % i, i) for i in range(n)]), SR), fold(map(ev, range(n)))

@dim(1025)
def sibling_blocks(n):
    return prog("int t = 0; int q = 5; " + j(lambda i: "{ %s a = %s; int b = t; t = (b * 3 + %s) %% 1000003; } " % (ty(i), iv(i), rd("a", i)), n) + "Console.WriteLine(t); Console.WriteLine(q);", SR), [str(__import__("functools").reduce(lambda t, i: (t * 3 + ev(i)) % 1000003, range(n), 0)), "5"]

@dim(400)
def parameters(n):
    return prog("Console.WriteLine(F(%s)); Console.WriteLine(F(%s));" % (j(lambda i: str(w(i)), n, ", "), j(lambda i: str(w(i + 1)), n, ", ")), "", "static int F(%s) { %s return s; }" % (j(lambda i: "int p%d" % i, n, ", "), sumup(["p%d" % i for i in range(n)]).replace("Console.WriteLine(s); ", ""))), fold([w(i) for i in range(n)]) + fold([w(i + 1) for i in range(n)])

@dim(400)
def mixed_parameters(n):
    return prog("int k = 77; F(%s); Console.WriteLine(k); new P().G(%s); Console.WriteLine(k);" % ((j(lambda i: iv(i), n, ", "),) * 2), SR, "static void F(%s) { %s }\nvoid G(%s) { %s }" % ((j(lambda i: "%s p%d" % (ty(i), i), n, ", "), sumup([rd("p%d" % i, i) for i in range(n)])) * 2)), (fold(map(ev, range(n))) + ["77"]) * 2

@dim(400)
def reference_parameters(n):
    return prog(j(lambda i: "int a%d = %d; " % (i, w(i)), n) + "F(%s); " % j(lambda i: "ref a%d" % i, n, ", ") + sumup(["a%d" % i for i in range(n)]), "", "static void F(%s) { %s }" % (j(lambda i: "ref int p%d" % i, n, ", "), j(lambda i: "p%d = p%d + %d; " % (i, i, i % 5), n))), fold([w(i) + i % 5 for i in range(n)])

@dim(500)
def fields(n):
    return prog("A x = new A(); " + j(lambda i: "x.f%d = %d; " % (i, w(i)), n) + sumup(["x.f%d" % i for i in range(n)]), "class A { %s }" % j(lambda i: "public int f%d; " % i, n)), fold(map(w, range(n)))

@dim(500)
def mixed_fields(n):
    return prog("A x = new A(); A y = new A(); " + j(lambda i: "x.f%d = %s; " % (i, iv(i)), n) + sumup([rd("x.f%d" % i, i) for i in range(n)]) + "Console.WriteLine(y.f0);", SR + "class A { %s }" % j(lambda i: "public %s f%d; " % (ty(i), i), n)), fold(map(ev, range(n))) + ["0"]

@dim(500)
def struct_fields(n):
    return prog("V x = new V(); " + j(lambda i: "x.f%d = %s; " % (i, iv(i)), n) + "V y = x; x.f0 = 1; V[] a = new V[3]; a[1] = y; object o = y; V z = F((V)o); " + sumup([rd("z.f%d" % i, i) for i in range(n)]) + "Console.WriteLine(a[1].f0); Console.WriteLine(a[2].f0); Console.WriteLine(a[0].f%d == a[2].f%d);" % ((n - 1) // 9 * 9, (n - 1) // 9 * 9), SR + "struct V { %s }" % j(lambda i: "public %s f%d; " % (ty(i), i), n), "static V F(V v) { int k = 3; V u = v; k = k + 1; return u; }"), fold(map(ev, range(n))) + [str(ev(0)), "0", "True"]

@dim(500)
def bytes_of_a_struct(n):
    return prog("V x = new V(); " + j(lambda i: "x.f%d = (byte)%d; " % (i, w(i) % 256), n) + "V[] a = new V[4]; a[2] = x; V y = F(5, a[2], 6); " + sumup(["y.f%d" % i for i in range(n)]) + "Console.WriteLine(a[1].f0); Console.WriteLine(a[3].f%d);" % (n - 1), "struct V { %s }" % j(lambda i: "public byte f%d; " % i, n), "static V F(int p, V v, int q) { if (p + q != 11) v.f0 = (byte)0; return v; }"), fold([w(i) % 256 for i in range(n)]) + ["0", "0"]

@dim(500)
def methods(n):
    return prog(sumup(["M%d()" % i for i in range(n)]), "", j(lambda i: "static int M%d() { return %d; }\n" % (i, w(i)), n)), fold(map(w, range(n)))

@dim(500)
def virtual_methods(n):
    D = "class A { %s }\nclass B : A { %s }\n" % (j(lambda i: "public virtual int M%d() { return %d; }\n" % (i, w(i)), n), j(lambda i: "public override int M%d() { return %d; }\n" % (i, w(i + 5)) if i % 3 else "", n))
    return prog("A a = new A(); A b = new B(); { %s } { %s }" % (sumup(["a.M%d()" % i for i in range(n)]), sumup(["b.M%d()" % i for i in range(n)])), D), fold(map(w, range(n))) + fold([w(i + 5) if i % 3 else w(i) for i in range(n)])

@dim(500)
def interface_methods(n):
    D = "interface I { %s }\nclass A : I { %s }\nclass B : I { %s }\n" % (j(lambda i: "int M%d(int p); " % i, n), j(lambda i: "public int M%d(int p) { return p + %d; }\n" % (i, w(i)), n), j(lambda i: "public int M%d(int p) { return p + %d; }\n" % (n - 1 - i, w(n - i + 4)), n))
    return prog("I a = new A(); I b = new B(); { %s } { %s }" % (sumup(["a.M%d(1)" % i for i in range(n)]), sumup(["b.M%d(2)" % i for i in range(n)])), D), fold([w(i) + 1 for i in range(n)]) + fold([w(i + 5) + 2 for i in range(n)])

@dim(257)
def properties(n):
    return prog("A a = new A(); " + j(lambda i: "a.P%d = %d; " % (i, w(i)), n // 2 + 1) + sumup(["a.P%d" % i for i in range(n // 2 + 1)]), "class A { %s }" % j(lambda i: "public int P%d { get; set; }\n" % i, n // 2 + 1)), fold([w(i) for i in range(n // 2 + 1)])

@dim(500)
def overloads(n):
    return prog(sumup(["F(new T%d())" % i for i in range(n)]), j(lambda i: "class T%d { }\n" % i, n), j(lambda i: "static int F(T%d x) { return %d; }\n" % (i, w(i)), n)), fold(map(w, range(n)))

@dim(300)
def constructors(n):
    return prog(sumup(["new A(new T%d()).v" % i for i in range(n)]), j(lambda i: "class T%d { }\n" % i, n) + "class A { public int v; %s }" % j(lambda i: "public A(T%d x) { v = %d; }\n" % (i, w(i)), n)), fold(map(w, range(n)))

@dim(1025)
def classes(n):
    return prog(sumup(["(new K%d()).V()" % i for i in range(n)]), j(lambda i: "class K%d { public int V() { return %d; } }\n" % (i, w(i)), n)), fold(map(w, range(n)))

@dim(513)
def types_tested(n):
    return prog("object[] a = new object[%d]; %s %s" % (n, j(lambda i: "a[%d] = new K%d(); " % (i, i), n), sumup(["(a[%d] is K%d ? %d : 0)" % (i, i, w(i)) for i in range(n)]) + "int c = 0; for (int i = 0; i < %d; i++) if (a[i] is K%d) c = c + 1; Console.WriteLine(c);" % (n, n - 1)), j(lambda i: "class K%d { }\n" % i, n)), fold(map(w, range(n))) + ["1"]

@dim(257)
def class_depth(n):
    D = "class K0 { public int f0 = 3; public virtual int V() { return f0; } public int W() { return 1; } }\n" + "".join("class K%d : K%d { public int f%d = %d; public override int V() { return (base.V() * 3 + f%d) %% 1000003; } }\n" % (i, i - 1, i, w(i), i) for i in range(1, n))
    v = 3
    for i in range(1, n): v = (v * 3 + w(i)) % 1000003
    return prog("K%d x = new K%d(); Console.WriteLine(x.V()); K0 y = x; Console.WriteLine(y.W()); object o = y; Console.WriteLine(o is K0); Console.WriteLine(o is K%d); object q = new K0(); Console.WriteLine(q is K%d);" % (n - 1, n - 1, n - 1, n - 1), D), [str(v), "1", "True", "True", str(n == 1)]

@dim(400)
def interfaces(n):
    return prog("A a = new A(); " + j(lambda i: "I%d i%d = a; " % (i, i), n) + sumup(["i%d.M()" % i if i % 2 else "i%d.N%d()" % (i, i) for i in range(n)]), j(lambda i: "interface I%d { int N%d(); int M(); }\n" % (i, i), n) + "class A : %s { public int M() { return 50; } %s }" % (j(lambda i: "I%d" % i, n, ", "), j(lambda i: "public int N%d() { return %d; }\n" % (i, w(i)), n))), fold([50 if i % 2 else w(i) for i in range(n)])

@dim(500)
def interface_depth(n):
    D = "interface I0 { int M0(); }\n" + "".join("interface I%d : I%d { int M%d(); }\n" % (i, i - 1, i) for i in range(1, n)) + "class A : I%d { %s }\n" % (n - 1, j(lambda i: "public int M%d() { return %d; }\n" % (i, w(i)), n))
    return prog("I%d a = new A(); %s I0 b = (I0)a; Console.WriteLine(b.M0());" % (n - 1, sumup(["a.M%d()" % i for i in range(0, n)])), D), fold(map(w, range(n))) + [str(w(0))]

@dim(2049)
def string_literals(n):
    return prog(j(lambda i: 'Console.WriteLine("t%d"); ' % i, n)), ["t%d" % i for i in range(n)]

@dim(1025)
def number_literals(n):
    return prog(j(lambda i: "Console.WriteLine(%dL); Console.WriteLine(%d); " % (5000000000 + i * 7, i * 65), n)), [str(x) for i in range(n) for x in (5000000000 + i * 7, i * 65)]

@dim(4097)
def string_length(n):
    s = "".join(chr(97 + i % 26) for i in range(n))
    return prog('string s = "%s"; Console.WriteLine(s); Console.Write("%s"); Console.WriteLine("|");' % (s, s[::-1])), [s, s[::-1] + "|"]

@dim(1025)
def name_length(n):
    x = "x" * n
    return prog("int %s = 5; int %sy = 6; int %sz = 7; Console.WriteLine(%s); Console.WriteLine(%sy); Console.WriteLine(new A%s().v); Console.WriteLine(M%s(3)); Console.WriteLine(M%sy(3));" % (x, x, x, x, x, x, x, x), "class A%s { public int v = 8; } class A%sy { public int v = 9; }" % (x, x), "static int M%s(int p) { return p; } static int M%sy(int p) { return p + 1; }" % (x, x)), ["5", "6", "8", "3", "4"]

@dim(513)
def switch_labels(n):
    return prog("for (int i = -1; i <= %d; i++) Console.WriteLine(F(i) + G(i));" % n, "", "static int F(int x) { switch (x) { %s default: return -1; } }\nstatic int G(int x) { int r = 0; switch (x) { %s } return r; }" % (j(lambda i: "case %d: return %d; " % (i, w(i)), n), j(lambda i: "case %d: r = %d; break; " % (n - 1 - i, 1000 * (n - i)), n))), ["-1"] + [str(w(i) + 1000 * (i + 1)) for i in range(n)] + ["-1"]

@dim(257)
def sparse_switch(n):
    k = lambda i: (i - n // 2) * 1000003 % 4000000000 - 2000000000
    ks = sorted({k(i) for i in range(n)})
    return prog("".join("Console.WriteLine(F(%d)); Console.WriteLine(F(%d)); " % (x, x + 1) for x in ks), "", "static int F(int x) { switch (x) { %s default: return -1; } }" % "".join("case %d: return %d; " % (x, w(i)) for i, x in enumerate(ks))), [y for i, x in enumerate(ks) for y in (str(w(i)), "-1")]

@dim(257)
def labels_of_a_section(n):
    return prog("for (int i = -1; i <= %d; i++) Console.WriteLine(F(i));" % (2 * n), "", "static int F(int x) { switch (x) { %s return 1; %s return 2; default: return 3; } }" % (j(lambda i: "case %d: " % (2 * i), n), j(lambda i: "case %d: " % (2 * i + 1), n))), ["3"] + [str(1 + i % 2) for i in range(2 * n)] + ["3"]

@dim(4097)
def jump_distance(n):
    return prog("int s = 1; if (s == 0) { %s } else s = 7; Console.WriteLine(s); int k = 0; for (int i = 0; i < 3; i++) { %s if (i == 1) continue; k = k + 1; } Console.WriteLine(k); Console.WriteLine(s);" % ("s = s + 1; " * n, "s = s + i; " * n)), ["7", "2", str(7 + 3 * n)]

@dim(257)
def block_depth(n):
    return prog("int s = 0; " + j(lambda i: "{ int a%d = %d; " % (i, w(i)), n) + sumup(["a%d" % i for i in range(n)]).replace("int s = 0;", "s = 0;") + "}" * n + " Console.WriteLine(s > 0 || s == 0);"), fold(map(w, range(n))) + ["True"]

@dim(257)
def if_depth(n):
    return prog("for (int k = 0; k <= %d; k = k + %d) { int s = 0; %s %s Console.WriteLine(s); }" % (n, max(1, n // 5), j(lambda i: "if (k > %d) { s = s + 1; " % i, n), "} else s = s + 1000; " * n)), [str(k + (1000 if k < n else 0)) for k in range(0, n + 1, max(1, n // 5))]

@dim(257)
def else_if_chain(n):
    return prog("for (int k = 0; k <= %d; k++) { %s else Console.WriteLine(-1); }" % (n, j(lambda i: "if (k == %d) Console.WriteLine(%d);" % (i, w(i)), n, " else ")), "", ""), [str(w(i)) for i in range(n)] + ["-1"]

@dim(65)
def loop_depth(n):
    return prog("int s = 0; " + j(lambda i: "for (int i%d = 0; i%d < %d; i%d++) { " % (i, i, 2 if i % 8 == 0 else 1, i), n) + "s = s + 1;" + " }" * n + " Console.WriteLine(s);"), [str(2 ** ((n + 7) // 8))]

@dim(129)
def parentheses(n):
    return prog("int s = %d; Console.WriteLine(%ss%s); Console.WriteLine(%s1 + s%s);" % (n, "(" * n, ")" * n, "(" * n, ") * 1" * n)), [str(n), str(n + 1)]

@dim(1025)
def operands(n):
    return prog("int a = 1; Console.WriteLine(%s); bool b = %s; Console.WriteLine(b); Console.WriteLine(%s);" % (j(lambda i: "a * %d" % w(i), n, " + "), j(lambda i: "a < %d" % (w(i) + 2), n, " && "), j(lambda i: "a > %d" % (w(i) + 2), n, " || "))), [str(sum(map(w, range(n)))), "True", "False"]

@dim(257)
def pending_operands(n):
    return prog("int s = 1; Console.WriteLine(%ss%s); Console.WriteLine(%ss%s);" % (j(lambda i: "s * %d - (" % (i + 1), n), ")" * n, j(lambda i: "F(%d) + (" % (i + 1), n), ")" * n), "", "static int F(int x) { return x; }"), [str(__import__("functools").reduce(lambda a, i: i - a, range(n, 0, -1), 1)), str(sum(range(1, n + 1)) + 1)]

@dim(257)
def nested_calls(n):
    return prog("Console.WriteLine(%s0%s); Console.WriteLine(%s0, 1%s);" .replace(", 1%s", "%s") % ("F(" * n, ", 1)" * n, "G(3, " * n, ")" * n), "", "static int F(int x, int y) { return (x * 3 + y) % 1000003; }\nstatic int G(int y, int x) { return (x * 5 + y) % 1000003; }"), [str(__import__("functools").reduce(lambda x, i: (x * 3 + 1) % 1000003, range(n), 0)), str(__import__("functools").reduce(lambda x, i: (x * 5 + 3) % 1000003, range(n), 0))]

@dim(129)
def conditional_chain(n):
    return prog("for (int k = 0; k <= %d; k++) Console.WriteLine(%s -1);" % (n, j(lambda i: "k == %d ? %d : " % (i, w(i)), n))), [str(w(i)) for i in range(n)] + ["-1"]

@dim(129)
def try_depth(n):
    return prog("int s = 0; " + "try { " * n + "throw new Exception(\"m\"); " + j(lambda i: "} finally { s = (s * 3 + %d) %% 1000003; } " % w(i) if i < n - 1 else "} catch (Exception e) { Console.WriteLine(e.Message); } ", n) + "Console.WriteLine(s);"), ["m", str(__import__("functools").reduce(lambda s, i: (s * 3 + w(i)) % 1000003, range(n - 1), 0))]

@dim(257)
def tries_in_a_row(n):
    return prog("int s = 0; " + j(lambda i: "try { s = s + 1; if (s %% 2 == %d) throw new Exception(); s = s + 100; } catch (Exception e) { s = s + 10; } finally { s = s + 1000; } " % (i % 2), n) + "Console.WriteLine(s);"), [str(tries(n))]
def tries(n):
    s = 0
    for i in range(n):
        s += 1
        s += 10 if s % 2 == i % 2 else 100
        s += 1000
    return s

@dim(129)
def catch_clauses(n):
    return prog("for (int i = 0; i <= %d; i++) try { T(i); } %s catch (Exception e) { Console.WriteLine(-1); }" % (n, j(lambda i: "catch (E%d e) { Console.WriteLine(%d); } " % (i, w(i)), n)), j(lambda i: "class E%d : Exception { }\n" % i, n), "static void T(int i) { %s throw new Exception(); }" % j(lambda i: "if (i == %d) throw new E%d(); " % (i, i), n)), [str(w(i)) for i in range(n)] + ["-1"]

@dim(20001)
def recursion(n):
    return prog("Console.WriteLine(R(%d, 1)); Console.WriteLine(E(%d)); new P().I(%d);" % (n, n, n), "", "static int R(int n, int a) { int b = n + a; if (n == 0) return 0; int r = R(n - 1, a + 1); return (r * 3 + b) % 1000003; }\nstatic bool E(int n) { if (n == 0) return true; return O(n - 1); }\nstatic bool O(int n) { if (n == 0) return false; return E(n - 1); }\nvoid I(int n) { if (n == 0) { Console.WriteLine(\"bottom\"); return; } I(n - 1); }"), [str(rec(n)), str(n % 2 == 0), "bottom"]
def rec(n):
    r = 0
    for k in range(1, n + 1): r = (r * 3 + k + (n - k + 1)) % 1000003
    return r

@dim(4097)
def unwound_frames(n):
    return prog("int c = 0; try { R(%d, ref c); } catch (Exception e) { Console.WriteLine(e.Message); } Console.WriteLine(c); for (int i = 0; i < 2; i++) try { Q(%d); } catch (Exception e) { Console.WriteLine(i); }" % (n, n), "", "static void R(int n, ref int c) { if (n == 0) throw new Exception(\"deep\"); try { R(n - 1, ref c); } finally { c = c + 1; } }\nstatic int Q(int n) { if (n == 0) throw new Exception(\"deep\"); return Q(n - 1) + 1; }"), ["deep", str(n), "0", "1"]

@dim(257)
def rethrown(n):
    return prog("try { R(%d); } catch (Exception e) { int k = 0; while (e.InnerException != null) { e = e.InnerException; k = k + 1; } Console.WriteLine(k); Console.WriteLine(e.Message); }" % n, "", "static void R(int n) { if (n == 0) throw new Exception(\"deep\"); try { R(n - 1); } catch (Exception e) { throw new Exception(\"up\", e); } }"), [str(n), "deep"]

@dim(200001)
def array_length(n):
    return prog("int[] a = new int[%d]; byte[] b = new byte[%d]; for (int i = 0; i < %d; i++) { a[i] = i; b[i] = (byte)i; } int s = 0; for (int i = 0; i < %d; i++) { s = (s + a[i] * 3 + b[i]) %% 1000003; } Console.WriteLine(s); Console.WriteLine(a.Length + b.Length); try { a[%d] = 1; } catch (OutOfRangeException e) { Console.WriteLine(\"out\"); } Console.WriteLine(a[%d]);" % (n, n, n, n, n, n - 1)), [str(sum((i * 3 + i % 256) for i in range(n)) % 1000003), str(2 * n), "out", str(n - 1)]

@dim(1025)
def array_initialiser(n):
    return prog("int[] a = new int[] { %s }; long[] b = new long[] { %s }; int s = 0; for (int i = 0; i < %d; i++) s = (s * 3 + a[i] + (int)(b[i])) %% 1000003; Console.WriteLine(s); Console.WriteLine(a.Length);" % (j(lambda i: str(w(i)), n, ", "), j(lambda i: "%dL" % w(i + 1), n, ", "), n)), [str(__import__("functools").reduce(lambda s, i: (s * 3 + w(i) + w(i + 1)) % 1000003, range(n), 0)), str(n)]

@dim(300)
def elements_of_two_dimensions(n):
    return prog("int[,] a = new int[%d, %d]; for (int i = 0; i < %d; i++) for (int k = 0; k < %d; k++) a[i, k] = i * %d + k; int s = 0; for (int i = %d; i >= 0; i--) for (int k = 0; k < %d; k++) s = (s + a[i, k] * (k + 1)) %% 1000003; Console.WriteLine(s); Console.WriteLine(a.Length);" % (n, 3, n, 3, 3, n - 1, 3)), [str(sum((i * 3 + k) * (k + 1) for i in range(n) for k in range(3)) % 1000003), str(3 * n)]

@dim(1025)
def enum_members(n):
    return prog(sumup(["(int)E.m%d" % i for i in range(n)]), "enum E { %s }" % j(lambda i: "m%d" % i + (" = %d" % w(i) if i % 3 else ""), n, ", ")), fold(enumv(n))
def enumv(n):
    r = []
    for i in range(n): r.append(w(i) if i % 3 else (r[-1] + 1 if r else 0))
    return r

@dim(400)
def constants(n):
    return prog(sumup(["K.c%d" % i for i in range(n)]), "class K { %s }" % j(lambda i: "public const int c%d = %s; " % (i, str(w(i)) if i % 2 or i + 1 >= n else "c%d + 1" % (i + 1)), n)), fold([w(i) if i % 2 or i + 1 >= n else w(i + 1) + 1 for i in range(n)])

@dim(200)
def constant_chain(n):
    return prog("Console.WriteLine(K.c0);", "class K { %s }" % j(lambda i: "public const int c%d = %s; " % (i, "5" if i == n - 1 else "c%d + 1" % (i + 1)), n)), [str(n + 4)]

@dim(33)
def namespace_depth(n):
    return prog("Console.WriteLine(new Q().v);", "using %s;\n" % j(lambda i: "N%d" % i, n, ".") + j(lambda i: "namespace N%d { public class T%d { public int v = %d; } " % (i, i, w(i)), n) + "public class Q { public int v = new T0().v; }".replace("new T0().v", "44") + "}" * n), ["44"]

@dim(65)
def namespaces(n):
    return prog(sumup(["new T%d().v" % i for i in range(n)]), j(lambda i: "using N%d;\n" % i, n) + j(lambda i: "namespace N%d { public class T%d { public int v = %d; } public class U { } }\n" % (i, i, w(i)), n)), fold(map(w, range(n)))

@dim(257)
def delegates(n):
    return prog(j(lambda i: "Delegate<int, int> d%d = M%d; " % (i, i), n) + sumup(["d%d(%d)" % (i, i) for i in range(n)]), "", j(lambda i: "static int M%d(int p) { return p + %d; }\n" % (i, w(i)), n)), fold([i + w(i) for i in range(n)])

@dim(100001)
def objects(n):
    return prog("R h = null; int s = 0; for (int i = 0; i < %d; i++) { R r = new R(); r.v = i; r.n = h; h = r; object o = i; s = (s + (int)o) %% 1000003; } int c = 0; long t = 0L; while (h != null) { t = t + (long)h.v; h = h.n; c = c + 1; } Console.WriteLine(s); Console.WriteLine(c); Console.WriteLine(t);" % n, "class R { public int v; public R n; }"), [str(n * (n - 1) // 2 % 1000003), str(n), str(n * (n - 1) // 2)]

@dim(4097)
def comments(n):
    return prog("Console.WriteLine(1); /*%s*/ Console.WriteLine(2); //%s\nConsole.WriteLine(3);%sConsole.WriteLine(4);%sConsole.WriteLine(5);" % ("* " * n, "/" * n, " " * n, "\n" * n)), ["1", "2", "3", "4", "5"]

# several files and assemblies

# --- the position of a variable among its neighbours: storage x type x operation at position n ---
PT = [("int", "%d", 1), ("long", "%dL", 1), ("byte", "(byte)%d", 1), ("sbyte", "(sbyte)%d", 1), ("short", "(short)%d", 1), ("ushort", "(ushort)%d", 1), ("uint", "(uint)%d", 1), ("ulong", "(ulong)%d", 1), ("float", "%d.0f", 0), ("double", "%d.0", 0), ("R", "new R(%d)", 2), ("S", "new S(%d)", 2)]
def position(kind):
    def f(n):
        M, calls, exp = [], [], []
        for k, (t, c, arith) in enumerate(PT):
            v = lambda e: "(int)(%s%s)" % (e, ".v" if arith == 2 else "")
            ops, x = [], 20 + k
            def show(e, val): ops.append("Console.WriteLine(%s); " % e); exp.append(str(val))
            target = "this.x" if kind == "field" else "x"
            show(v(target), x)
            ops.append("%s = %s; " % (target, c % (x + 1))); show(v(target), x + 1)
            ops.append("%s y = (%s = %s); " % (t, target, c % (x + 2))); show(v("y"), x + 2); show(v(target), x + 2)
            if arith == 1:
                ops.append("int z = (int)(%s++); " % target); show("z", x + 2); show(v(target), x + 3)
                ops.append("z = (int)(--%s); " % target); show("z", x + 2); show(v(target), x + 2)
                ops.append("%s += %s; " % (target, c % 5)); show(v(target), x + 7)
                ops.append("%s = (%s)(%s - %s); " % (target, t, target, c % 3)); show(v(target), x + 4)
            else:
                ops.append("%s = %s; " % (target, c % (x + 4))); show(v(target), x + 4)
            if kind != "field":
                ops.append("Inc%d(ref %s); " % (k, target)); show(v(target), x + 9)
                M.append("static void Inc%d(ref %s p) { p = %s; }" % (k, t, c % (x + 9)))
            else: ops.append("%s = %s; " % (target, c % (x + 9)))
            body, neigh = "".join(ops), "Console.WriteLine(a%d * 100 + b); " % (n - 1) if n else "Console.WriteLine(b); "
            exp.append(str((n - 1) % 90 * 100 + 7 if n else 7))
            fill = lambda pre: "".join(", %s%d" % (pre, i) for i in range(n))[2:]
            if kind == "local":
                M.append("static void F%d() { %s%s x = %s; int b = 7; %s%s }" % (k, j(lambda i: "int a%d = %d; " % (i, i % 90), n), t, c % x, body, neigh))
                calls.append("F%d(); " % k)
            elif kind == "field":
                M.append("} class Q%d { %spublic %s x; public int b = 7; public void F() { %s%s }" % (k, j(lambda i: "public int a%d = %d; " % (i, i % 90), n), t, body, neigh))
                calls.append("Q%d q%d = new Q%d(); q%d.x = %s; q%d.F(); " % (k, k, k, k, c % x, k)); 
                calls.append("Console.WriteLine(%s); " % v("q%d.x" % k)); exp.append(str(x + 9))
            else:
                inst = "instance" in kind; way = "ref " if "ref" in kind else "out " if "out" in kind else ""
                ps = ["int a%d" % i for i in range(n)] + [way + t + " x", "int b"]
                if way == "out ": body = "x = %s; " % (c % x) + body
                M.append("%svoid F%d(%s) { %s%s }" % ("public " if inst else "static ", k, ", ".join(ps), body, neigh))
                args = ["%d" % (i % 90) for i in range(n)] + [way + "m%d" % k, "7"]
                calls.append("%s m%d = %s; %sF%d(%s); Console.WriteLine(%s); " % (t, k, c % x, "p." if inst else "", k, ", ".join(args), v("m%d" % k)))
                exp.append(str(x + 9 if way else x))
        return prog("P p = new P(); " + "".join(calls), SR, ("\n".join(M)) if kind != "field" else "\n".join(M).replace("}", "", 0)), exp
    return f
for _k in ("local", "parameter", "instance parameter", "ref parameter", "instance ref parameter", "out parameter", "instance out parameter"):
    DIMS["position of a " + _k] = (position(_k), 0, 258)
DIMS["position of a field"] = (position("field"), 1, 258)

def many_files(n, o):
    d = new_dir()
    try:
        names = []
        for i in range(n):
            with open(os.path.join(d, "f%d.cs" % i), "w") as f:
                f.write("import System;\nusing System;\npublic class K%d%s { public int v%d = %d; public %s int V() { return v%d; } }\n" % (i, " : K%d" % (i - 1) if i % 4 else "", i, w(i), "override" if i % 4 else "virtual", i))
            names.append("f%d.cs" % i)
        with open(os.path.join(d, "m.cs"), "w") as f:
            f.write(prog(sumup(["new K%d().V()" % i for i in range(n)])))
        names.insert(n // 2, "m.cs")
        r = run_cmd([APRIL, "run", "-O", str(o)] + (names if n % 2 else names[::-1]) + [SYSTEM], d)
        exp = fold(map(w, range(n)))
        if not r.timeout and r.rc == 0 and r.lines() == exp: return None
        return {"src": "// %d files" % n, "opt": o, "exp": exp, "got": r.out[:400], "detail": "a program of %d files does not do what it should" % n}
    finally: shutil.rmtree(d, ignore_errors=True)

def sizes(low, top, deep):
    s = set(range(1, 21)) if deep else {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17}
    for k in range(5, 18):
        s |= {(1 << k) - 1, 1 << k, (1 << k) + 1}
    s |= {100, 200, 1000, 10000, top}
    if deep: s |= {24, 48, 96, 160, 192, 250, 300, 384, 500, 768, 3000}
    else: s -= {31, 33}
    return sorted(x for x in s if low <= x <= top)

def runs(src, exp, opt, key):
    r = run_source(src, opt, 60)
    if not r.timeout and r.rc == 0 and r.lines() == exp: return None
    return {"src": src, "opt": opt, "exp": exp[:50], "got": r.lines()[:50], "detail": "at this size the program does not do what it should (exit code %s)" % r.rc}

def run(ex, tier):
    deep = tier == "thorough"
    for name, (f, low, top) in DIMS.items():
        if ONLY and ONLY not in name: continue
        def jobs():
            for q, n in enumerate(sizes(low, top, deep)):
                for o in (0, 1, 2, 3) if deep else (0, 2) if n < 40 else ((0, 2)[q % 2],):
                    def fn(n=n, o=o):
                        src, exp = f(n)
                        return runs(src, exp, o, name)
                    yield "%s %d O%d" % (name, n, o), n, fn
        ex.check(name, jobs())
    def fjobs():
        for n in sizes(1, 100 if deep else 40, deep):
            for o in (0, 2): yield "files %d O%d" % (n, o), n, (lambda n=n, o=o: many_files(n, o))
    if not ONLY or ONLY in "files": ex.check("files", fjobs())

if __name__ == "__main__":
    main("C27", run, "exhaustive enumeration of dimensions of size x boundary sizes (powers of two and their neighbours), each program executed on the real compiler and VM and its output, in which every element counts with its position, compared with a model")
