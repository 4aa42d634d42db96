"""C20: programs that break a rule of the language are rejected: reported, not written, not executed; programs that keep them are accepted."""
from fw import *
import os, glob

D = """public class A { public int f; public int M(int x) { return x; } public static int T(int x) { return x; } }
public class B : A, I { public void bb() { } }
public class C { }
public interface I { }
public struct S { public int a; }
public enum E { X, Y }
"""
VAL = {"sbyte": "(sbyte)1", "byte": "(byte)1", "short": "(short)1", "ushort": "(ushort)1", "int": "1", "uint": "1u", "long": "1L", "ulong": "1uL", "float": "1.5f", "double": "1.5", "bool": "true", "char": "'a'",
       "string": '"s"', "object": "new object()", "A": "new A()", "B": "new B()", "C": "new C()", "S": "new S()", "int[]": "new int[2]", "long[]": "new long[2]", "int[,]": "new int[2, 2]", "I": "(I)new B()"}
SIGNED, UNSIGNED, FLOATS = ["sbyte", "short", "int", "long"], ["byte", "ushort", "uint", "ulong"], ["float", "double"]
NUM = SIGNED + UNSIGNED + FLOATS
REFS = ["object", "A", "B", "C", "int[]", "long[]", "int[,]", "I"]

def implicit(src, dst):
    """Whether a value converts by itself."""
    if src == dst: return True
    if dst == "object": return True
    for fam in (SIGNED, UNSIGNED):
        if src in fam and dst in fam: return fam.index(src) < fam.index(dst)
    if src in SIGNED and dst in FLOATS: return True
    if (src, dst) in (("float", "double"), ("B", "A"), ("B", "I")): return True
    return False

def wrap(body, mem="", decls="", using=""):
    return "import System;\nusing System;\n%s%sclass P {\n%s\n[EntryPoint]\npublic static void Main() {\nConsole.WriteLine(\"ran\");\n%s\n}\n}\n" % (using, decls, mem, body)

def judge(src, ok, opt, diag=True, files=None, cmd="run"):
    """None when the program is accepted or rejected as it should, or what is wrong."""
    d = new_dir()
    try:
        names = []
        for n, s in (files or {"t.cs": src}).items():
            with open(os.path.join(d, n), "w") as f: f.write(s)
            names.append(n)
        r = run_cmd([APRIL, cmd, "-O", str(opt)] + names + [SYSTEM], d)
        ran = "ran" in r.lines()
        apl = glob.glob(d + "/**/*.apl", recursive=True)
        bad = None
        if r.timeout: bad = "no answer"
        elif ok:
            if cmd == "run" and (r.rc != 0 or r.lines() != ["ran"]): bad = "a well-formed program is not executed"
            if cmd == "compile" and (r.rc != 0 or not apl): bad = "a well-formed program is not compiled"
        else:
            if ran: bad = "an ill-formed program is executed"
            elif r.rc == 0: bad = "an ill-formed program is rejected, but the exit code is 0"
            elif apl: bad = "an assembly is written for an ill-formed program"
            elif diag and "error" not in r.out: bad = "an ill-formed program is rejected without an error message"
        if bad is None: return None
        return {"src": src or repr(files), "opt": opt, "exp": "accepted" if ok else "rejected", "got": r.out[:600], "detail": "%s (exit code %s)" % (bad, r.rc)}
    finally:
        shutil.rmtree(d, ignore_errors=True)

# ---------------------------------------------------------------- families: (key, source, well-formed)

CONTEXTS = {   # where a value of type b meets the type a
    "init": lambda a, b: wrap("%s x = %s;" % (a, b), "", D),
    "assign": lambda a, b: wrap("%s x = %s; x = %s;" % (a, VAL[a], b), "", D),
    "argument": lambda a, b: wrap("F(%s);" % b, "static void F(%s p) { }" % a, D),
    "instance argument": lambda a, b: wrap("P p = new P(); p.F(1, %s);" % b, "void F(int n, %s p) { }" % a, D),
    "constructor argument": lambda a, b: wrap("W w = new W(%s);" % b, "", D + "public class W { public W(%s p) { } }\n" % a),
    "return": lambda a, b: wrap("F();", "static %s F() { return %s; }" % (a, b), D),
    "field": lambda a, b: wrap("W w = new W(); w.v = %s;" % b, "", D + "public class W { public %s v; }\n" % a),
    "struct field": lambda a, b: wrap("W w = new W(); w.v = %s;" % b, "", D + "public struct W { public %s v; }\n" % a),
    "element": lambda a, b: wrap("%s[] w = new %s[2]; w[0] = %s;" % (a, a, b), "", D),
    "variable": lambda a, b: wrap("var y = %s; %s x = y;" % (b, a), "", D),
    "property": lambda a, b: wrap("W w = new W(); w.P = %s;" % b, "", D + "public class W { public %s v; public %s P { get { return v; } set { v = value; } } }\n" % (a, a)),
}
def conversions(deep):
    for c, f in CONTEXTS.items():
        if not deep and c in ("instance argument", "struct field", "variable", "property", "constructor argument"): continue
        for a in VAL:
            if c == "element" and "[" in a: continue
            for b in VAL:
                if (b, a) == ("I", "object"): continue       # april asks for a cast of interfaces
                yield "%s %s from %s" % (c, a, b), f(a, VAL[b]), implicit(b, a)

def operators(deep):
    ts = ["byte", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string", "object", "A", "S", "int[]"]
    ints = SIGNED + UNSIGNED
    def good(op, a, b):
        if op in "+-*/": return a in NUM and b in NUM
        if op in ("%", "&", "|", "^", "<<", ">>"): return a in ints and b in ints
        if op in ("<", "<=", ">", ">="): return a in NUM and b in NUM or a == b == "char"
        if op in ("&&", "||"): return a == b == "bool"
        if op in ("==", "!="): return a in NUM and b in NUM or a == b and a in ("bool", "char", "object", "A")
    for op in ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "<", "<=", ">", ">=", "&&", "||", "==", "!="):
        for a in ts:
            for b in ts:
                ok = good(op, a, b)
                if not ok and "char" in (a, b) and (op in "+-" or op in ("<", "<=", ">", ">=", "==", "!=")): continue      # not decided
                if op in ("==", "!=") and not ok and a in ("object", "A", "S", "int[]") and b in ("object", "A", "S", "int[]"): continue
                yield "%s %s %s" % (a, op, b), wrap("%s x = %s; %s y = %s; var z = x %s y;" % (a, VAL[a], b, VAL[b], op), "", D), ok
    for op in ("-x", "+x", "~x", "!x", "x++", "x--", "++x", "--x"):
        for a in ts:
            ok = a in ints if op == "~x" else a == "bool" if op == "!x" else a in NUM
            if op == "~x" and a in FLOATS: continue
            if op == "-x" and a == "ulong": ok = False
            yield "%s of %s" % (op, a), wrap("%s x = %s; %s%s;" % (a, VAL[a], "" if len(op) == 3 else "var z = ", op), "", D), ok
    for op in ("+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=") if deep else ("+=", "/=", "&=", "<<="):
        for a in ts:
            for b in ts:
                if a in NUM and b in NUM: continue
                if "char" in (a, b): continue
                yield "%s %s %s" % (a, op, b), wrap("%s x = %s; %s y = %s; x %s y;" % (a, VAL[a], b, VAL[b], op), "", D), False

def arity(n):
    ts = {"i": "int", "s": "string", "A": "A", "L": "long", "B": "B"}
    ls = [x for k in range(n + 1) for x in itertools.product("isAL" if n < 3 else "isLAB" if k < 3 else "isL", repeat=k)]
    for ps in ls:
        for av in ls:
            ok = len(ps) == len(av) and all(implicit(ts[a], ts[p]) for a, p in zip(av, ps))
            pl, al = ", ".join("%s p%d" % (ts[p], i) for i, p in enumerate(ps)), ", ".join(VAL[ts[a]] for a in av)
            for kind in ("static", "instance", "constructor"):
                if kind == "constructor" and not av and ps: continue       # april gives every class a constructor without parameters
                if kind == "static": src = wrap("F(%s);" % al, "static void F(%s) { }" % pl, D)
                elif kind == "instance": src = wrap("P p = new P(); p.F(%s);" % al, "void F(%s) { }" % pl, D)
                else: src = wrap("W w = new W(%s);" % al, "", D + "public class W { public W(%s) { } }\n" % pl)
                yield "%s (%s) called with (%s)" % (kind, "".join(ps), "".join(av)), src, ok

def modes():
    ts = ("int", "long", "byte", "A", "B", "object", "S", "string")
    for pm in ("", "ref ", "out "):
        for am in ("", "ref ", "out "):
            for pt in ts:
                for at in ts:
                    if pm == am == "out " and pt in ("A", "B", "object") and at in ("A", "B", "object") and implicit(pt, at): ok = True
                    else: ok = pm == am and (pt == at if pm else implicit(at, pt))
                    yield "%s%s from %s%s" % (pm, pt, am, at), wrap("%s x = %s; F(%sx);" % (at, VAL[at], am), "static void F(%s%s p) { %s }" % (pm, pt, "p = %s;" % VAL[pt] if pm == "out " else ""), D), ok

NAMES = ["int x = @;", "@ = 1;", "int x = 1; x = @;", "Console.WriteLine(@);", "if (@) { }", "while (@) { }", "for (@ = 0; ; ) { break; }", "for (int i = 0; i < @; i++) { }", "for (int i = 0; i < 1; @++) { }", "switch (@) { case 1: break; }",
         "int[] q = new int[2]; q[@] = 1;", "@[0] = 1;", "@();", "Math.Abs(@);", "@.x = 1;", "@.F();", "int x = 1 + @;", "int x = -@;", "int x = (int)@;", "int x = @ ? 1 : 2;", "int x = true ? @ : 2;", "@++;", "R(ref @);", "throw @;", "bool b = @ is A;", "@ += 1;",
         "int[] q = new int[@];", "int[] q = new int[] { 1, @ };", "Console.WriteLine(1 + (2 * (3 - @)));", "bool b = true || @;", "var f = @;", "do { } while (@);", "A z = new A(); z.f = @;", "A z = new A(); z.M(@);", "A.T(@);", "int x = A.T(A.T(@));", "object o = (object)@;", "int x = 1, y = @;",
         "A z = new A(); int x = z.@;", "A z = new A(); z.@ = 1;", "A z = new A(); z.@();", "A z = new A(); z.@(1, 2);", "A.@();", "int x = A.@;", "A z = new A(); z.@.f = 1;", "A z = new A(); z.@ += 1;", "A z = new A(); z.@++;", "A z = new A(); int x = z.@[0];", "A z = new A(); Console.WriteLine(z.@);", "A z = new A(); if (z.@) { }",
         "S s = new S(); s.@ = 1;", "int[] q = new int[2]; int x = q.@;", "E e = E.@;", "string s = \"a\"; int x = s.@;", "double d = Math.@(1.0);", "Console.@(1);", "I i = null; i.@();", "A z = new B(); z.bb();", "object o = new A(); o.f = 1;", "object o = new A(); o.M(1);"]
TYPES = ["@ z = null;", "object z = new @();", "object z = new @[2];", "object z = (@)null;", "object o = null; bool z = o is @;", "object o = null; object z = o as @;", "try { Console.WriteLine(1); } catch (@ e) { }", "Console.WriteLine(typeof(@).Name);", "@.F();", "System.@ z = null;", "@[] z = null;", "@ z = new @();", "Tuple<int, @> t = null;", "Delegate<int, @> t = null;"]
TDECL = ["public class Q { public @ z; }", "public class Q { public void F(@ z) { } }", "public class Q { public @ F() { return null; } }", "public class Q : @ { }", "public interface Q : @ { }", "public struct Q { public @ z; }", "public class Q { public @ P { get { return null; } } }", "public class Q { public void F(ref @ z) { } }", "public class Q { public Q(@ z) { } }",
         "public class Q : A, @ { }", "public class Q { public @[] z; }", "public class Q { public void F(int a, @ z) { } }", "public interface Q { @ F(); }", "public abstract class Q { public abstract void F(@ z); }"]
def names():
    mem = "static void R(ref int x) { x = 1; }"
    for t in NAMES:
        for n in ("nn", "Nn", "zork_1") if "bb" not in t else ("",): yield "name %s %s" % (n, t), wrap(t.replace("@", n), mem, D), False
    for t in TYPES:
        for n in ("Zork", "A1"): yield "type %s %s" % (n, t), wrap(t.replace("@", n), "", D), False
    for t in TDECL:
        for n in ("Zork", "A1"): yield "type %s %s" % (n, t), wrap("", "", D + t.replace("@", n) + "\n"), False
    for t in ("A z = null;", "object z = new A();", "object z = new A[2];", "object z = (A)null;", "object o = null; bool z = o is A;", "object o = null; object z = o as A;", "try { Console.Write(\"\"); } catch (Exception e) { }", "A[] z = null;"): yield "good " + t, wrap(t, mem, D), True

DECLS = {   # declarations, with their repaired form
    "two types of one name": ("public class Q { } public class Q { }", "public class Q { } public class Q1 { }"), "a class and a struct of one name": ("public class Q { } public struct Q { }", "public class Q { } public struct Q1 { }"),
    "two fields of one name": ("public class Q { int a; int a; }", "public class Q { int a; int b; }"), "two fields of one name and two types": ("public class Q { int a; long a; }", "public class Q { int a; long b; }"), "a field and a method of one name": ("public class Q { int a; void a() { } }", "public class Q { int a; void b() { } }"),
    "two methods of one signature": ("public class Q { void F() { } void F() { } }", "public class Q { void F() { } void F(int a) { } }"), "two methods that differ in the result": ("public class Q { void F() { } int F() { return 1; } }", "public class Q { void F() { } int F(int a) { return 1; } }"), "two methods that differ in the parameter names": ("public class Q { void F(int a) { } void F(int b) { } }", "public class Q { void F(int a) { } void F(long b) { } }"),
    "two constructors of one signature": ("public class Q { public Q() { } public Q() { } }", "public class Q { public Q() { } public Q(int a) { } }"), "two parameters of one name": ("public class Q { void F(int a, int a) { } }", "public class Q { void F(int a, int b) { } }"), "two properties of one name": ("public class Q { public int P { get { return 1; } } public int P { get { return 2; } } }", "public class Q { public int P { get { return 1; } } public int R { get { return 2; } } }"),
    "two enum members of one name": ("public enum Q { X, X }", "public enum Q { X, Y }"), "cyclic base types": ("public class Q : W { } public class W : Q { }", "public class Q : W { } public class W { }"), "a class as its own base": ("public class Q : Q { }", "public class Q { }"), "an abstract method in a class that is not": ("public class T { public abstract int F(); }", "public abstract class T { public abstract int F(); }"),
    "an override of nothing": ("public class Q { public override int F() { return 1; } }", "public class Q { public virtual int F() { return 1; } }"), "an override of a method that is not virtual": ("public class T { public int F() { return 1; } } public class Q : T { public override int F() { return 2; } }", "public class T { public virtual int F() { return 1; } } public class Q : T { public override int F() { return 2; } }"),
    "an override with another result": ("public class T { public virtual int F() { return 1; } } public class Q : T { public override long F() { return 2L; } }", "public class T { public virtual int F() { return 1; } } public class Q : T { public override int F() { return 2; } }"), "an override of a sealed one": ("public class T { public virtual int F() { return 1; } } public class Q : T { public sealed override int F() { return 2; } } public class W : Q { public override int F() { return 3; } }", "public class T { public virtual int F() { return 1; } } public class Q : T { public override int F() { return 2; } } public class W : Q { public override int F() { return 3; } }"),
    "an override with other parameters": ("public class T { public virtual int F(int a) { return 1; } } public class Q : T { public override int F(long a) { return 2; } }", "public class T { public virtual int F(int a) { return 1; } } public class Q : T { public override int F(int a) { return 2; } }"),
    "a private virtual method": ("public class T { private virtual int F() { return 1; } }", "public class T { protected virtual int F() { return 1; } }"), "a static virtual method": ("public class T { public static virtual int F() { return 1; } }", "public class T { public static int F() { return 1; } }"), "a field of an interface": ("public interface T { int f; }", "public interface T { int f(); }"), "a static method of an interface": ("public interface T { static int F(); }", "public interface T { int F(); }"),
    "no result": ("public class T { public int F() { } }", "public class T { public int F() { return 1; } }"), "no result in one path": ("public class T { public int F(bool b) { if (b) return 1; } }", "public class T { public int F(bool b) { if (b) return 1; return 2; } }"), "no result in the else path": ("public class T { public int F(bool b) { if (b) { return 1; } else { b = false; } } }", "public class T { public int F(bool b) { if (b) { return 1; } else { return 2; } } }"),
    "return without a result": ("public class T { public int F() { return; } }", "public class T { public void F() { return; } }"), "a result of a void method": ("public class T { public void F() { return 1; } }", "public class T { public int F() { return 1; } }"), "a result of a constructor": ("public class T { public T() { return 1; } }", "public class T { public T() { return; } }"), "a method without a type": ("public class T { public U() { } }", "public class T { public T() { } }"),
    "an enum of strings": ("public enum T : string { X }", "public enum T : int { X }"), "a string enum value": ("public enum T { X = \"s\" }", "public enum T { X = 4 }"), "two access modifiers": ("public private class T { }", "public class T { }"), "a modifier given twice": ("public class T { public public int x; }", "public class T { public int x; }"), "two entry points": ("class PP { [EntryPoint] public static void Main() { } }", "class PP { public static void Main() { } }"),
}
def declarations():
    for k, (bad, good) in DECLS.items():
        yield k, wrap("", "", bad + "\n"), False
        yield "not " + k, wrap("", "", good + "\n"), True

PLACES = {
    "main": lambda s: wrap(s, "", D), "uncalled method": lambda s: wrap("", "static void F() { %s }" % s, D), "other class": lambda s: wrap("", "", D + "public class W { public void F() { %s } }\n" % s), "struct method": lambda s: wrap("", "", D + "public struct W { public void F() { %s } }\n" % s), "constructor": lambda s: wrap("", "", D + "public class W { public W() { %s } }\n" % s),
    "getter": lambda s: wrap("", "", D + "public class W { public int P { get { %s return 1; } } }\n" % s), "setter": lambda s: wrap("", "", D + "public class W { int f; public int P { get { return f; } set { %s f = value; } } }\n" % s), "virtual method": lambda s: wrap("", "", D + "public class W { public virtual void F() { %s } }\n" % s), "interface implementation": lambda s: wrap("", "", D + "public interface J { void F(); } public class W : J { public void F() { %s } }\n" % s),
    "block": lambda s: wrap("{ { %s } }" % s, "", D), "if": lambda s: wrap("int k = 1; if (k == 2) { %s }" % s, "", D), "else": lambda s: wrap("int k = 1; if (k == 1) { Console.Write(\"\"); } else { %s }" % s, "", D), "false branch": lambda s: wrap("if (false) { %s }" % s, "", D), "while": lambda s: wrap("int k = 1; while (k == 2) { %s }" % s, "", D), "for": lambda s: wrap("for (int k = 0; k < 0; k++) { %s }" % s, "", D),
    "do": lambda s: wrap("do { %s } while (1 == 2);" % s, "", D), "switch": lambda s: wrap("int k = 1; switch (k) { case 2: %s break; default: break; }" % s, "", D), "default": lambda s: wrap("int k = 1; switch (k) { case 1: break; default: %s break; }" % s, "", D), "try": lambda s: wrap("try { %s } finally { Console.Write(\"\"); }" % s, "", D), "catch": lambda s: wrap("try { Console.Write(\"\"); } catch (Exception ex) { %s }" % s, "", D), "finally": lambda s: wrap("try { Console.Write(\"\"); } finally { %s }" % s, "", D),
    "after return": lambda s: wrap("return; %s" % s, "", D), "nested loops": lambda s: wrap("for (int k = 0; k < 0; k++) { while (k > 0) { if (k == 3) { %s } } }" % s, "", D),
}
ERRORS = {"undefined name": ("int x = nn;", "int x = 1;"), "undefined method": ("A.Nn(1);", "A.T(1);"), "undefined member": ("A z = new A(); z.nn = 1;", "A z = new A(); z.f = 1;"), "undefined type": ("Zork z = null;", "A z = null;"), "wrong initialiser": ("int x = \"s\";", "int x = 2;"), "wrong assignment": ("B b = new B(); b = new A();", "A b = new B(); b = new A();"), "wrong argument": ("A.T(\"s\");", "A.T(3);"),
          "too many arguments": ("A.T(1, 2);", "A.T(1);"), "wrong operand": ("bool b = !1;", "bool b = !true;"), "out of scope": ("{ int x = 1; } int y = x;", "int x = 1; int y = x;"), "missing ref": ("int x = 1; A.T(ref x);", "int x = 1; A.T(x);"), "wrong constructor": ("A z = new A(1);", "A z = new A();"), "missing semicolon": ("int x = 1 int y = 2;", "int x = 1; int y = 2;"), "missing parenthesis": ("A.T(1;", "A.T(1);"), "missing operand": ("int x = 1 * ;", "int x = 1 * 2;")}
def places():
    for p, f in PLACES.items():
        for e, (bad, good) in ERRORS.items():
            yield "%s in %s" % (e, p), f(bad), False
            yield "no %s in %s" % (e, p), f(good), True

def syntax():
    """A program with one punctuation token missing."""
    src = wrap("int[] q = new int[3]; q[1] = 2; for (int i = 0; i < 3; i++) { q[i] = A.T(i + (2 * 3)); } if (q[1] > 2) { q[0] = 1; } while (q[0] > 9) { q[0] = 2; } A z = new A(); z.f = q[2];", "static int G(int a, int b) { return a * (b + 1); }", D)
    out = []
    for i, ch in enumerate(src):
        if ch in ";(){}[]=": yield "without %s at %d" % (ch, i), src[:i] + " " + src[i + 1:], False

def run(ex, tier):
    deep = tier == "thorough"
    def fam(name, gen, diag=True, levels=None):
        if ONLY and ONLY not in name: return
        def jobs():
            for i, (key, src, ok) in enumerate(gen):
                for o in levels or ((0, 2) if deep else ((i % 2) * 2,)):
                    yield "%s: %s O%d" % (name, key, o), 3, (lambda src=src, ok=ok, o=o: judge(src, ok, o, diag))
        ex.check(name, jobs())
    fam("conversions", conversions(deep))
    fam("operators", operators(deep))
    fam("arity", arity(3 if deep else 2))
    fam("modes", modes())
    fam("names", names())
    fam("declarations", declarations(), levels=(0, 2))
    fam("places", places(), levels=(0, 1, 2, 3) if deep else (0, 3))
    fam("syntax", syntax(), diag=False)
    if not ONLY or ONLY in "files":
        def jobs():
            good, more = wrap("Aux.G();", "", D), "import System;\nusing System;\npublic class Aux { public static void G() { %s } }\n"
            for e, (bad, fine) in ERRORS.items():
                for order in (("a.cs", "b.cs"), ("b.cs", "a.cs")):
                    for o in (0, 2):
                        for cmd in ("run", "compile"):
                            for ok, s in ((False, bad), (True, fine)):
                                fs = {"a.cs": good, "b.cs": more % s}
                                fs = {n: fs[n] for n in order}
                                yield "files: %s %s %s %s O%d" % ("no" if ok else "", e, order, cmd, o), 3, (lambda fs=fs, ok=ok, cmd=cmd, o=o, e=e: judge(None, ok, o, True, fs, cmd))
        ex.check("files", jobs())

if __name__ == "__main__":
    main("C20", run, "exhaustive enumeration of programs with and without one broken rule, executed against the expected verdict of the compiler")
