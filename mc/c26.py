"""C26: creating an object runs the constructors of its whole chain of classes, from the base class on, with initial values in place."""
from fw import *
import kinds
from kinds import T, val, show
from c20 import judge, wrap as prog
import c18
from c18 import Ex18, case

G = "public class Gg { public static int T(int x) { Console.WriteLine(x); return x; } public static int Q(int x) { return x; } }\n"

# ---------------------------------------------------------------- chains of constructors

# a level: None (no constructor) or a tuple of (arity, arity of the base call or None for none written)
def levels(base_arities, root, deep):
    yield None if 0 in base_arities or root else False
    def calls(a):
        yield from ([None] if root or 0 in base_arities else [])
        if not root: yield from sorted(base_arities)
    for sig in ((0,), (1,), (0, 1), (1, 2)):
        yield from itertools.product(*[[(a, c) for c in calls(a)] for a in sig])

def arities(level): return {0} if level is None else {a for a, _ in level}

def chains(n, deep):
    def rec(pre):
        if len(pre) == n: yield tuple(pre); return
        b = arities(pre[-1]) if pre else set()
        for l in levels(b, not pre, deep):
            if l is False: continue
            yield from rec(pre + [l])
    yield from rec([])

def arg(i, a, j, form):
    """The j-th argument of the base call of the constructor with arity a of level i: (text, value given the parameters)"""
    k = 100 + 10 * i + j
    if a and form == 0: return "p%d + %d" % (j % a, k), lambda ps: (ps[j % a] + k, [])
    if form == 1: return "Gg.T(%d)" % k, lambda ps: (k, [str(k)])
    if a: return "Gg.T(p%d)" % (j % a), lambda ps: (ps[j % a], [str(ps[j % a])])
    return str(k), lambda ps: (k, [])

def declare(chain, form, ini):
    d = ""
    for i, l in enumerate(chain):
        cs = ""
        if l is not None:
            for a, c in l:
                ps = ", ".join("int p%d" % j for j in range(a))
                base = "" if c is None else " : base(%s)" % ", ".join(arg(i, a, j, form)[0] for j in range(c))
                cs += "public X%d@(%s)%s { Console.WriteLine(\"c%d.%d\"); f%d = f%d + %s; } " % (i, ps, base, i, a, i, i, " + ".join(["1"] + ["p%d" % j for j in range(a)]))
        d += "public class X%d@%s { public int f%d%s; public long g%d; %s}\n" % (i, " : X%d@" % (i - 1) if i else "", i, " = %d" % (1000 * (i + 1)) if ini >> i & 1 else "", i, cs)
    return d

def construct(chain, form, ini, i, args, fields, out):
    """Model of running the constructor of level i."""
    l = chain[i]
    if l is None:
        if i: construct(chain, form, ini, i - 1, [], fields, out)
        fields[i] = 1000 * (i + 1) if ini >> i & 1 else 0
        return
    a, c = next(x for x in l if x[0] == len(args))
    bargs = []
    for j in range(c or 0):
        v, o = arg(i, a, j, form)[1](args); bargs.append(v); out += o
    if i: construct(chain, form, ini, i - 1, bargs, fields, out)
    fields[i] = 1000 * (i + 1) if ini >> i & 1 else 0
    out.append("c%d.%d" % (i, a))
    fields[i] += 1 + sum(args)

USES = ("local", "base", "argument", "result", "element", "field", "twice")

def chain_cases(n, deep):
    for q, ch in enumerate(chains(n, deep)):
        forms = (0, 1, 2) if deep or n < 3 else (q % 3,)
        for form in forms:
            inis = range(1 << n) if deep and n < 3 else ((q + form) % (1 << n),)
            for ini in inis:
                use = USES[(q // 3 + form + ini) % len(USES)]
                top = n - 1
                decl = declare(ch, form, ini)
                body, exp = "", []
                for k, a in enumerate(sorted(arities(ch[top]))):
                    args = [7 + k, 8 + k][:a]
                    f, o = {}, []
                    construct(ch, form, ini, top, args, f, o)
                    new = "new X%d@(%s)" % (top, ", ".join(map(str, args)))
                    X, X0 = "X%d@" % top, "X0@"
                    if use == "local": body += "{ %s x = %s;" % (X, new)
                    elif use == "base": body += "{ %s y = %s; %s x = (%s)y;" % (X0, new, X, X)
                    elif use == "argument": body += "{ %s x = I@(%s);" % (X, new)
                    elif use == "result": body += "{ %s x = R%d@();" % (X, k)
                    elif use == "element": body += "{ %s[] w = new %s[3]; w[1] = %s; %s x = w[1];" % (X, X, new, X)
                    elif use == "field": body += "{ Hh@ h = new Hh@(); h.x = %s; %s x = h.x;" % (new, X)
                    else: body += "{ %s x = null; for (int i = 0; i < 2; i++) x = %s;" % (X, new); o = o + o
                    body += "".join("Console.WriteLine(x.f%d); Console.WriteLine(x.g%d);" % (i, i) for i in range(n)) + "}"
                    exp += o
                    for i in range(n): exp += [str(f[i]), "0"]
                mem = "static X%d@ I@(X%d@ x) { return x; }\n" % (top, top)
                for k, a in enumerate(sorted(arities(ch[top]))):
                    mem += "static X%d@ R%d@() { return new X%d@(%s); }\n" % (top, k, top, ", ".join(map(str, [7 + k, 8 + k][:a])))
                yield Case("chain %s arguments %d initial values %d %s" % ("/".join("-" if l is None else ",".join("%d:%s" % (a, "-" if c is None else c) for a, c in l) for l in ch), form, ini, use), body, exp, mem, decl + "public class Hh@ { public X%d@ x; }\n" % top)

# ---------------------------------------------------------------- arguments of every kind

def argument_kinds(deep):
    for a in kinds.ALL:
        for b in kinds.ALL:
            if not deep and a != b and (kinds.ALL.index(a) + kinds.ALL.index(b)) % 3: continue
            (ea, la), (eb, lb) = val(a, 0), val(b, 1)
            D = "public class A@ { public %s fa; public %s fb; public A@(%s p, %s q) { fa = p; this.fb = q; } }\n" % (T(a), T(b), T(a), T(b))
            D += "public class B@ : A@ { public %s fc; public B@(%s x, %s y) : base(y, x) { fc = x; } public B@(%s x) : base(x, %s) { fc = fb; } }\n" % (T(b), T(b), T(a), T(a), eb)
            D += "public class Cc@ : B@ { public int k; public Cc@(int n, %s y, %s x) : base(x, y) { k = n; } public Cc@(long n) : base(%s) { k = 9; } }\n" % (T(a), T(b), ea)
            sh = lambda v: show(a, v + ".fa") + show(b, v + ".fb") + show(b, v + ".fc")
            body = "Cc@ c = new Cc@(5, %s, %s); %s W.int_(c.k); Cc@ d = new Cc@(5L); %s W.int_(d.k); B@ e = new B@(%s); %s" % (ea, eb, sh("c"), sh("d"), ea, sh("e"))
            yield Case("base arguments %s, %s" % (a, b), body, la + lb + lb + ["5"] + la + lb + lb + ["9"] + la + lb + lb, "", D)

def reference_arguments(deep):
    for k in kinds.ALL:
        (e0, l0), (e1, l1) = val(k, 0), val(k, 1)
        D = "public class A@ { public %s f; public A@(ref %s p) { f = p; p = %s; } public A@(int n, out %s q) { q = %s; f = q; } }\n" % (T(k), T(k), e1, T(k), e1)
        D += "public class B@ : A@ { public %s g; public B@(ref %s x) : base(ref x) { g = x; } public B@(int n, out %s x) : base(n, out x) { g = x; x = %s; } }\n" % (T(k), T(k), T(k), e0)
        yield Case("ref %s" % k, "%s v = %s; B@ b = new B@(ref v); %s %s %s" % (T(k), e0, show(k, "v"), show(k, "b.f"), show(k, "b.g")), l1 + l0 + l1, "", D)
        yield Case("out %s" % k, "%s v; B@ b = new B@(1, out v); %s %s %s" % (T(k), show(k, "v"), show(k, "b.f"), show(k, "b.g")), l0 + l1 + l1, "", D)

# ---------------------------------------------------------------- initial values

INIT = {"sbyte": [("(sbyte)(-5)", "-5"), ("127", None)], "byte": [("(byte)200", "200")], "short": [("(short)(-300)", "-300")], "ushort": [("(ushort)65535", "65535")], "int": [("-70000", "-70000"), ("2147483647", "2147483647"), ("3 * 4 + 1", "13"), ("Kk@.N", "41"), ("Kk@.N + 1", "42")],
        "uint": [("4294967295u", "4294967295")], "long": [("5000000000L", "5000000000"), ("-1L", "-1")], "ulong": [("18446744073709551615uL", "18446744073709551615")], "float": [("1.5f", "1.5"), ("-2.25f", "-2.25")], "double": [("0.125", "0.125"), ("-1024.5", "-1024.5")],
        "bool": [("true", "True"), ("!false", "True")], "char": [("'q'", "q")], "string": [('"text"', "text")]}

def initial_values(deep):
    """Two initialised fields in one class or in base and derived class; constructors of both kinds; a constructor sees and may replace them."""
    flat = [(t, e, o) for t, vs in INIT.items() for e, o in vs if o is not None]
    K = "public class Kk@ { public const int N = 41; }\n"
    for (t, e, o), (u, f, q) in itertools.product(flat, repeat=2):
        if not deep and (flat.index((t, e, o)) + 2 * flat.index((u, f, q))) % 3: continue
        for where in ("one", "base", "both"):
            for ctor in ("none", "plain", "sets"):
                mk = lambda n, base, fs, seen: "public class %s%s { %s %s }\n" % (n, base, fs, "" if ctor == "none" else "public %s() { %s }" % (n, "".join("Console.WriteLine(%s);" % s for s in seen)))
                fa, fb = "public %s a = %s; public long z;" % (t, e), "public %s b = %s; public int y;" % (u, f)
                if where == "one": D = mk("A@", "", fa + fb, ["a", "b"]) ; seen = [o, q]; c = "A@"
                elif where == "base": D = mk("A@", "", fa + fb, ["a", "b"]) + mk("B@", " : A@", "", ["b", "a"]); seen = [o, q, q, o]; c = "B@"
                else: D = mk("A@", "", fa, ["a"]) + mk("B@", " : A@", fb, ["b", "a"]); seen = [o, q, o]; c = "B@"
                body, exp = "%s x = new %s();" % (c, c), []
                if ctor == "sets":
                    z = "0" if t not in ("bool", "char", "string") else {"bool": "false", "char": "'w'", "string": '"w"'}[t]
                    z = {"float": "0.5f", "double": "0.5", "long": "6L", "ulong": "6uL", "uint": "6u", "int": "6"}.get(t, "(%s)6" % t if t in ("sbyte", "byte", "short", "ushort") else z)
                    zo = {"bool": "False", "char": "w", "string": "w", "float": "0.5", "double": "0.5"}.get(t, "6")
                    D = D.replace("public %s() { " % c, "public %s() { a = %s; " % (c, z))
                    if where == "one": seen[0] = zo
                    else: seen[-1] = zo
                if ctor != "none": exp += seen
                body += "Console.WriteLine(x.a); Console.WriteLine(x.b); Console.WriteLine(x.z); Console.WriteLine(x.y); x = new %s(); Console.WriteLine(x.a);" % c
                exp += [zo if ctor == "sets" else o, q, "0", "0"] + (seen if ctor != "none" else []) + [zo if ctor == "sets" else o]
                yield Case("%s = %s, %s = %s, %s class, constructor %s" % (t, e.replace("@", ""), u, f.replace("@", ""), where, ctor), body, exp, "", K + D)

# ---------------------------------------------------------------- exceptions, virtual calls, library classes

def failing(deep):
    """An exception at every point of a chain: what ran before ran, nothing after, the variable keeps its value."""
    n = 3
    pts = ["body%d" % i for i in range(n)] + ["arg%d" % i for i in range(1, n)] + ["mid%d" % i for i in range(n)] + ["none"]
    for pt in pts:
        for ctx in ("local", "argument", "nested", "finally", "method"):
            D, out = "public class Th@ { public static int Z(int x) { Console.WriteLine(x); throw new Exception(\"z\"); return x; } }\n", []
            for i in range(n):
                b = "Console.WriteLine(\"b%d\");" % i
                if pt == "body%d" % i: b = "throw new Exception(\"x\");" + b
                if pt == "mid%d" % i: b = "f%d = 5; if (f%d == 5) throw new Exception(\"y\"); %s" % (i, i, b)
                a = "Th@.Z(%d)" % i if pt == "arg%d" % i else "Gg.T(%d)" % i
                D += "public class X%d@%s { public int f%d; public X%d@(int p)%s { %s } }\n" % (i, " : X%d@" % (i - 1) if i else "", i, i, " : base(%s)" % a if i else "", b)
            dead = False
            for i in range(n - 1, 0, -1):
                out.append(str(i))
                if pt == "arg%d" % i: out.append("z"); dead = True; break
            if not dead:
                for i in range(n):
                    if pt == "body%d" % i: out.append("x"); dead = True; break
                    if pt == "mid%d" % i: out.append("y"); dead = True; break
                    out.append("b%d" % i)
            new = "new X2@(1)"
            use = {"local": "v = %s;" % new, "argument": "v = I@(%s);" % new, "nested": "Gg.T(50); v = I2@(Gg.T(51), %s, Gg.T(52));" % new, "finally": "try { v = %s; } finally { Console.WriteLine(\"f\"); }" % new, "method": "v = M@();"}[ctx]
            exp = list(out)
            if ctx == "nested": exp = ["50", "51"] + (out if dead else out + ["52"])
            if ctx == "finally": exp = out[:-1] + ["f", out[-1]] if dead else out + ["f"]
            body = "X2@ v = null; try { %s } catch (Exception e) { Console.WriteLine(e.Message); } Console.WriteLine(v == null);" % use
            yield Case("exception at %s, %s" % (pt, ctx), body, exp + [str(dead)], "static X2@ I@(X2@ x) { return x; }\nstatic X2@ I2@(int a, X2@ x, int b) { return x; }\nstatic X2@ M@() { return new X2@(1); }\n", D)

def virtual_calls(deep):
    """Constructors at each level call methods, virtual and not; the object has its final class from the start."""
    for over in itertools.product((0, 1), repeat=3):
        for calls in itertools.product((0, 1), repeat=3):
            D, impl, out = "", 0, []
            for i in range(3):
                v = "" if i and not over[i] else "public %s void V() { Console.WriteLine(\"v%d\"); }" % ("override" if i else "virtual", i)
                D += "public class X%d@%s { public int s%d; public X%d@() { %s N%d(); } %s public void N%d() { s%d = s%d + 1; Console.WriteLine(\"n%d\"); } }\n" % (i, " : X%d@" % (i - 1) if i else "", i, i, "V();" if calls[i] else "", i, v, i, i, i, i)
            for top in range(3):
                impl = max([0] + [i for i in range(1, top + 1) if over[i]])
                for i in range(top + 1):
                    if calls[i]: out.append("v%d" % impl)
                    out.append("n%d" % i)
                out += ["1"] * (top + 1)
            body = "".join("{ X%d@ x = new X%d@(); %s }" % (t, t, "".join("Console.WriteLine(x.s%d);" % i for i in range(t + 1))) for t in range(3))
            yield Case("overrides %s calls %s" % (over, calls), body, out, "", D)

def library(deep):
    """Classes derived from the exceptions of the library, with and without message and inner exception."""
    for base in ("Exception", "SystemException", "NullReferenceException", "InvalidCastException", "OutOfRangeException"):
        for depth in (1, 2, 3):
            for form in ("message", "computed", "inner", "none"):
                if form == "inner" and base != "Exception": continue
                D = ""
                for i in range(depth):
                    b = "E%d@" % (i - 1) if i else base
                    ps, a = {"message": ("string m", "m"), "computed": ("string m", "Pp@.S(m)"), "inner": ("string m, Exception n", "m, n"), "none": ("string m", "")}[form]
                    D += "public class E%d@ : %s { public int c%d; public E%d@(%s)%s { c%d = %d; } }\n" % (i, b, i, i, ps, " : base(%s)" % a if form != "none" or i == 0 else " : base(m)", i, i + 1)
                D += "public class Pp@ { public static string S(string s) { Console.WriteLine(\"s\"); return s; } }\n"
                t = "E%d@" % (depth - 1)
                args = '"hello"' + (', new OutOfRangeException("in")' if form == "inner" else "")
                show_ = "" if form == "none" else "Console.WriteLine(e.Message);"
                if form == "inner": show_ += "Console.WriteLine(e.InnerException.Message);"
                for c in (t, base, "Exception"):
                    body = "try { throw new %s(%s); } catch (%s e) { %s Console.WriteLine(((%s)e).c%d); Console.WriteLine(((E0@)e).c0); }" % (t, args, c, show_, t, depth - 1)
                    if depth > 1: body = body.replace("((E0@)e).c0", "e is E0@")
                    exp = (["s"] * depth if form == "computed" else []) + ([] if form == "none" else ["hello"]) + (["in"] if form == "inner" else []) + [str(depth), "True" if depth > 1 else "1"]
                    D2 = D
                    yield Case("%s %d %s caught as %s" % (base, depth, form, c.replace("@", "")), body, exp, "", D2)
                if form in ("message", "inner"):
                    direct = "new %s(%s)" % (base, args)
                    yield Case("%s %s direct %d" % (base, form, depth), "Exception e = %s; Console.WriteLine(e.Message); try { throw e; } catch (%s x) { Console.WriteLine(x.Message); }" % (direct, base), ["hello", "hello"])

# ---------------------------------------------------------------- programs to reject

def rejected(deep):
    """All sets of constructors of base and derived class by arity x what is called: accepted exactly when there is one of its own."""
    sets = [c for n in (0, 1, 2) for c in itertools.combinations((0, 1, 2), n)]
    for bs in sets:
        have = set(bs) or {0}
        for k in (0, 1, 2, 3):
            yield "new of arity %d with constructors %s" % (k, bs), prog("A a = new A(%s);" % ", ".join("1" * k), "", "class A { %s }" % " ".join("public A(%s) { }" % ", ".join("int p%d" % i for i in range(n)) for n in bs)), k in have
            yield "base call of arity %d with constructors %s" % (k, bs), prog("", "", "class A { %s } class B : A { public B() : base(%s) { } }" % (" ".join("public A(%s) { }" % ", ".join("int p%d" % i for i in range(n)) for n in bs), ", ".join("1" * k))), k in have
            for ds in sets:
                dh = set(ds) or {0}
                okbase = 0 in have
                yield "new of arity %d with own constructors %s and inherited ones %s" % (k, ds, bs), prog("B b = new B(%s);" % ", ".join("1" * k), "", "class A { %s } class B : A { %s }" % tuple(" ".join("public %s(%s) { }" % (c, ", ".join("int p%d" % i for i in range(n))) for n in s) for c, s in (("A", bs), ("B", ds)))), k in dh and okbase
        yield "no base call with constructors %s" % (bs,), prog("", "", "class A { %s } class B : A { public B() { } }" % " ".join("public A(%s) { }" % ", ".join("int p%d" % i for i in range(n)) for n in bs)), 0 in have
        yield "no constructor with base constructors %s" % (bs,), prog("", "", "class A { %s } class B : A { }" % " ".join("public A(%s) { }" % ", ".join("int p%d" % i for i in range(n)) for n in bs)), 0 in have
    for t, v in (("int", '"x"'), ("string", "1"), ("sbyte", "1000L"), ("A", "1"), ("bool", "1")):
        yield "base call with %s for %s" % (v, t), prog("", "", "class A { public A(%s p) { } } class B : A { public B() : base(%s) { } }" % (t, v)), False

# ---------------------------------------------------------------- chains over assemblies

def over_assemblies(deep):
    L = ("l1", "l2", "app")
    for n in (2, 3):
        for q, ch in enumerate(chains(n, False)):
            if not deep and n == 3 and q % 7: continue
            form, ini = q % 3, (q // 3) % (1 << n)
            decls, top = [], n - 1
            for i, d in enumerate(x for x in declare(ch, form, ini).split("\n") if x):
                decls.append((L[i if n == 3 else (0, 2)[i]], d.replace("Gg.T", "Gg%d@.T" % i) + "\npublic class Gg%d@ { public static int T(int x) { Console.WriteLine(x); return x; } }\n" % i))
            body, exp = "", []
            for k, a in enumerate(sorted(arities(ch[top]))):
                args = [7 + k, 8 + k][:a]
                f, o = {}, []
                construct(ch, form, ini, top, args, f, o)
                body += "{ X%d@ x = new X%d@(%s); %s }" % (top, top, ", ".join(map(str, args)), "".join("Console.WriteLine(x.f%d); Console.WriteLine(x.g%d);" % (i, i) for i in range(n)))
                exp += o
                for i in range(n): exp += [str(f[i]), "0"]
            yield case("assemblies %s arguments %d initial values %d" % ("/".join("-" if l is None else ",".join("%d:%s" % (a, "-" if c is None else c) for a, c in l) for l in ch), form, ini), body, exp, decls)

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = kinds.DECLS + G
    for n in (1, 2, 3):
        ex.explore("chains of %d" % n, chain_cases(n, deep))
    ex.explore("kinds of arguments", argument_kinds(deep))
    ex.explore("ref and out arguments", reference_arguments(deep))
    ex.explore("initial values", initial_values(deep))
    ex.explore("failing constructors", failing(deep))
    ex.explore("calls from constructors", virtual_calls(deep))
    ex.explore("library classes", library(deep))
    def jobs():
        for i, (key, src, ok) in enumerate(rejected(deep)):
            for o in (0, 2) if deep else ((i % 2) * 2,):
                yield "choice: %s O%d" % (key, o), 3, (lambda src=src, ok=ok, o=o: judge(src, ok, o))
    if not ONLY or ONLY in "choice": ex.check("choice", jobs())
    ex.extra = ""
    ex.__class__ = Ex18
    ex.batch = 40
    ex.opts = ((0, "s", 0), (2, "a", 9))
    ex.explore("over assemblies", over_assemblies(deep))

if __name__ == "__main__":
    main("C26", run, "exhaustive enumeration of chains of classes and their constructors (arities, base calls, argument forms, initial values), of failure points and of constructor sets, executed on the real compiler and VM, every output line or verdict compared with a reference model of construction")
