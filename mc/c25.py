"""C25: the core library computes what its names say: Math, Console, Array, Exception, Object.GetType, DateTime."""
from fw import *
import math
from num import ITYPES, INTS, NTYPES, FLOATS, lo, hi, wrap, f32, literal, show, flit, g

def lit(v, t): return literal(v, t) if t in INTS else flit(v, t)

def vals(t):
    if t in INTS:
        return sorted({lo(t), lo(t) + 1, -1, 0, 1, 2, 100, hi(t) // 2, hi(t) // 2 + 1, hi(t) - 1, hi(t)} & set(range(-1, 101)) | {v for v in (lo(t), lo(t) + 1, hi(t) // 2, hi(t) // 2 + 1, hi(t) - 1, hi(t)) if lo(t) <= v <= hi(t)} - {-1 if not INTS[t][1] else None})
    return [-3.5, -1.0, -0.25, 0.0, 0.25, 1.0, 2.5, 1024.0, 100000.0]

def ok(v, t): return t not in INTS or lo(t) <= v <= hi(t)

# ---------------------------------------------------------------- Math

PLACES = ("local", "field", "element", "parameter", "call")

def operand(t, place, n):
    """(declaration given a literal, expression)"""
    return {"local": ("%s p%d = {};" % (t, n), "p%d" % n), "field": ("h.f%d = {};" % n, "h.f%d" % n), "element": ("a[%d] = {};" % n, "a[%d]" % n), "parameter": ("%s p%d = {};" % (t, n), "p%d" % n), "call": ("%s p%d = {};" % (t, n), "Hl@.I(p%d)" % n)}[place]

def binary(deep):
    for fn in ("Max", "Min"):
        op = max if fn == "Max" else min
        for t in NTYPES:
            vs = [v for v in vals(t) if ok(v, t)]
            for place in PLACES:
                d = "public class Hl@ { public %s f0; public %s f1; public static %s I(%s x) { return x; } }\n" % (t, t, t, t)
                for v in vs:
                    body, exp = "Hl@ h = new Hl@(); %s[] a = new %s[2];" % (t, t), []
                    for w in vs:
                        d0, e0 = operand(t, place, 0); d1, e1 = operand(t, place, 1)
                        r = op(v, w)
                        body += "{ %s %s Console.WriteLine(Math.%s(%s, %s)); %s r = Math.%s(%s, %s); Console.WriteLine(r); Console.WriteLine(Math.%s(r, Math.%s(%s, r)) == r); }" % (d0.replace("{}", lit(v, t)), d1.replace("{}", lit(w, t)), fn, e0, e1, t, fn, e1, e0, fn, fn, e0)
                        exp += [show(r, t), show(r, t), "True"]
                    yield Case("%s of %s %s with all, %s" % (fn, t, v, place), body, exp, "", d)

def unary(deep):
    for t in NTYPES:
        if t in INTS and not INTS[t][1]: continue
        for v in vals(t):
            if not ok(v, t): continue
            for place in PLACES:
                d = "public class Hl@ { public %s f0; public static %s I(%s x) { return x; } }\n" % (t, t, t)
                d0, e0 = operand(t, place, 0)
                a = wrap(abs(v), t) if t in INTS else abs(v)
                s = (v > 0) - (v < 0)
                body = "Hl@ h = new Hl@(); %s[] a = new %s[2]; %s Console.WriteLine(Math.Abs(%s)); %s r = Math.Abs(%s); Console.WriteLine(r); Console.WriteLine(Math.Sign(%s)); int s = Math.Sign(%s); Console.WriteLine(s + 1); Console.WriteLine(Math.Sign(Math.Abs(%s)));" % (t, t, d0.replace("{}", lit(v, t)), e0, t, e0, e0, e0, e0)
                yield Case("Abs and Sign of %s %s, %s" % (t, v, place), body, [show(a, t)] * 2 + [str(s), str(s + 1), str((a > 0) - (a < 0))], "", d)

FUNCS = {"Sqrt": math.sqrt, "Sin": math.sin, "Cos": math.cos, "Tan": math.tan, "Sinh": math.sinh, "Cosh": math.cosh, "Tanh": math.tanh, "Asin": math.asin, "Acos": math.acos, "Atan": math.atan, "Asinh": math.asinh, "Acosh": math.acosh, "Atanh": math.atanh, "Log": math.log, "Log10": math.log10}
ARGS = [-20.0, -2.5, -1.0, -0.75, -0.5, -0.125, 0.0, 0.125, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 10.0, 20.0, 100.0, 12345.0]

def functions(deep):
    for f, fn in FUNCS.items():
        body, exp = "double d = 0.0;", []
        for v in ARGS:
            try: r = fn(v)
            except (ValueError, OverflowError): continue
            body += "d = %s; Console.WriteLine(Math.%s(d)); Console.WriteLine(Math.%s(%s)); Console.WriteLine(1.5 + Math.%s(d) * 2.0); double r@_%d = Math.%s(d + 0.0); Console.WriteLine(r@_%d);" % (flit(v, "double"), f, f, "(double)(%s)" % flit(v, "double") if v < 0 else flit(v, "double"), f, len(exp), f, len(exp))
            exp += [g(r), g(r), g(1.5 + r * 2.0), g(r)]
        yield Case("Math.%s" % f, body, exp)
        for h, hn in FUNCS.items():   # one applied to the other
            body, exp = "double d = 0.0;", []
            for v in ARGS:
                try: r = fn(hn(v))
                except (ValueError, OverflowError): continue
                if abs(r) < 1e-9 or abs(r) > 1e9: continue
                body += "d = %s; Console.WriteLine(Math.%s(Math.%s(d)));" % (flit(v, "double"), f, h); exp.append(g(r))
            if exp: yield Case("Math.%s(Math.%s)" % (f, h), body, exp)
    for v in ARGS:
        body, exp = "double d = %s; double e = 0.0;" % flit(v, "double"), []
        for w in (-3.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 10.0):
            try: r = math.pow(v, w)
            except (ValueError, OverflowError): continue
            body += "e = %s; Console.WriteLine(Math.Pow(d, e)); Console.WriteLine(Math.Pow(d, 2.0) + Math.Pow(2.0, e));" % flit(w, "double")
            exp += [g(r), g(math.pow(v, 2.0) + math.pow(2.0, w))]
        yield Case("Math.Pow(%s, all)" % v, body, exp)
    for t in ("sbyte", "short", "int", "long", "float"):   # arguments that are converted
        for f in ("Sqrt", "Cos", "Atan"):
            for v in (0, 1, 4, 100):
                yield Case("Math.%s of %s %s" % (f, t, v), "%s p = %s; Console.WriteLine(Math.%s(p)); Console.WriteLine(Math.Pow(p, p));" % (t, lit(v, t) if t in INTS else flit(float(v), t), f), [g(FUNCS[f](v)), g(math.pow(v, v))])

# ---------------------------------------------------------------- Console

WRITES = [("string", '"ab"', "ab"), ("empty", '""', ""), ("char", "'q'", "q"), ("bool", "true", "True"), ("false", "false", "False")] + [(t, None, None) for t in NTYPES]

def items(t, text, out):
    if text is not None: return text, out
    v = -7 if t in INTS and INTS[t][1] else 200 if t in INTS else 2.5 if t == "double" else -0.75
    return lit(v, t), show(v, t)

def console(deep):
    names = {"empty": "string", "false": "bool"}
    n = 2
    seqs = list(itertools.product(range(len(WRITES)), repeat=n)) + ([c for c in itertools.product(range(len(WRITES)), repeat=3)] if deep else [])
    for c in seqs:
        pre, its = "", []
        for k, i in enumerate(c):
            t, text, out = WRITES[i]
            e, o = items(t, text, out)
            pre += "%s x%d = %s;" % (names.get(t, t), k, e); its.append(o)
        body, exp, cur = pre, [], ""
        for lines in itertools.product((0, 1), repeat=len(c)):
            for k, l in enumerate(lines):
                body += "Console.Write%s(x%d);" % ("Line" if l else "", k); cur += its[k]
                if l: exp.append(cur); cur = ""
            body += "Console.WriteLine();"; exp.append(cur); cur = ""
        yield Case("Console: %s" % ", ".join(WRITES[i][0] for i in c), body, exp)

def extremes(deep):
    for t in NTYPES:
        for v in vals(t):
            if not ok(v, t): continue
            yield Case("Console: %s %s" % (t, v), "%s x = %s; Console.Write(x); Console.Write(x); Console.WriteLine(x); Console.WriteLine(x);" % (t, lit(v, t)), [show(v, t) * 3, show(v, t)])
    for c in range(32, 127):
        ch = chr(c)
        e = "'\\%s'" % ch if ch in "'\\" else "'%s'" % ch
        e = e.replace("@", "\x02")
        o = ch
        yield Case("Console: char %d" % c, "char x = %s; Console.Write(x); Console.Write('|'); Console.WriteLine(x);" % e, [ch + "|" + ch])

# ---------------------------------------------------------------- arrays

def arrays(deep):
    sizes = (0, 1, 2, 5)
    for rank in (1, 2, 3) + ((4,) if deep else ()):
        for dims in itertools.product(sizes if rank < 3 or deep else (0, 2, 3), repeat=rank):
            for t in ("int", "sbyte", "double", "string", "object", "Z@"):
                if rank > 1 and t not in ("int", "object", "Z@"): continue
                for how in ("const", "variables", "parameter", "field"):
                    total = 1
                    for d in dims: total *= d
                    ty = "%s[%s]" % (t, "," * (rank - 1))
                    mk = "new %s[%s]" % (t, ", ".join(map(str, dims)))
                    x, pre, D = "a", "", "public struct Z@ { public int q; public long r; }\npublic class Hl@ { public %s f; public static %s I(%s x) { return x; } }\n" % (ty, ty, ty)
                    if how == "variables":
                        pre = "".join("int d%d = %d;" % (i, d) for i, d in enumerate(dims)); mk = "new %s[%s]" % (t, ", ".join("d%d" % i for i in range(rank)))
                    pre += "%s a = %s;" % (ty, mk)
                    if how == "parameter": x = "Hl@.I(a)"
                    if how == "field": pre += "Hl@ h = new Hl@(); h.f = a;"; x = "h.f"
                    body, exp = pre + "Console.WriteLine(%s.Rank); Console.WriteLine(%s.Length);" % (x, x), [str(rank), str(total)]
                    for k in range(-2, rank + 2):
                        body += "try { Console.WriteLine(%s.GetLength(%d)); } catch (OutOfRangeException e) { Console.WriteLine(\"out\"); }" % (x, k)
                        exp.append(str(dims[k]) if 0 <= k < rank else "out")
                    body += "int n = 0; for (int i = 0; i < %s.GetLength(%d); i++) { n = n + 1; } Console.WriteLine(n); Console.WriteLine(%s.Length + n * %s.Rank);" % (x, rank - 1, x, x)
                    exp += [str(dims[-1]), str(total + dims[-1] * rank)]
                    yield Case("%s %s %s" % (ty.replace("@", ""), dims, how), body, exp, "", D)

# ---------------------------------------------------------------- exceptions

def exceptions(deep):
    """Chains of exceptions, thrown, caught, wrapped and thrown again; messages and inner exceptions stay."""
    for depth in range(1, 6 if deep else 5):
        for forms in itertools.product(("none", "message", "inner"), repeat=depth):
            if forms[0] == "inner": continue
            pre, msg, chain = "", [], []
            for i, f in enumerate(forms):
                a = {"none": "", "message": '"m%d"' % i, "inner": '"m%d", e%d' % (i, i - 1)}[f]
                pre += "Exception e%d = new Exception(%s);" % (i, a)
            def walk(i):
                """What printing the chain from i yields."""
                r = ["m%d" % i if forms[i] != "none" else "-"]
                if forms[i] == "inner": r += walk(i - 1)
                return r
            members = "static void S@(Exception e, bool some) { }\n"
            show_ = lambda v, i: ("Console.WriteLine(%s.Message);" % v if forms[i] != "none" else "Console.WriteLine(\"-\");") + (show_(v + ".InnerException", i - 1) if forms[i] == "inner" else "Console.WriteLine(%s.InnerException == null);" % v)
            n = depth - 1
            exp = walk(n) + ["True"]
            for how in ("plain", "thrown", "rethrown", "method", "finally"):
                th = "throw e%d;" % n
                body = {"plain": pre + show_("e%d" % n, n),
                        "thrown": pre + "try { %s } catch (Exception x) { %s }" % (th, show_("x", n)),
                        "rethrown": pre + "try { try { %s } catch (Exception y) { throw y; } } catch (Exception x) { %s }" % (th, show_("x", n)),
                        "method": "try { T@(); } catch (Exception x) { %s }" % show_("x", n),
                        "finally": pre + "try { try { %s } finally { Exception z = new Exception(\"z\"); } } catch (Exception x) { %s }" % (th, show_("x", n))}[how]
                yield Case("exception %s, %s" % (" ".join(forms), how), body, exp, "static void T@() { %s %s }" % (pre, th) if how == "method" else "")

def wrapped(deep):
    """try blocks nested in methods: each catches and throws on, wraps, replaces or passes; the message trail at the top."""
    acts = ("pass", "wrap", "same", "replace", "swallow")
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
        for c in itertools.product(acts, repeat=n):
            ms = "static void M0@() { throw new Exception(\"base\"); }\n"
            state = ["base"]
            for i, a in enumerate(c):
                call = "M%d@();" % i
                h = {"wrap": "throw new Exception(\"w%d\", e);" % i, "same": "throw e;", "replace": "throw new Exception(\"r%d\");" % i, "swallow": ""}.get(a)
                ms += "static void M%d@() { %s }\n" % (i + 1, call if a == "pass" else "try { %s } catch (Exception e) { %s }" % (call, h))
                if state is None: continue
                if a == "wrap": state = ["w%d" % i] + state
                elif a == "replace": state = ["r%d" % i]
                elif a == "swallow": state = None
            body = "try { M%d@(); Console.WriteLine(\"none\"); } catch (Exception e) { Exception x = e; while (x != null) { Console.WriteLine(x.Message); x = x.InnerException; } }" % n
            yield Case("trail: %s" % " ".join(c), body, state if state else ["none"], ms)

# ---------------------------------------------------------------- types and dates

def types(deep):
    """Two objects have the same type object exactly when they are of the same class, whatever they are seen as."""
    D = "public class A@ { } public class B@ : A@ { } public class Cc@ : B@ { } public class D@ : A@ { }\npublic interface I@ { } public class E@ : I@ { } public class F@ : E@, I@ { }\n"
    objs = [("A@", ["A@", "object"]), ("B@", ["A@", "B@", "object"]), ("Cc@", ["A@", "B@", "Cc@", "object"]), ("D@", ["A@", "D@"]), ("E@", ["E@", "object"]), ("F@", ["E@", "F@", "object"]), ("Exception", ["Exception"]), ("OutOfRangeException", ["Exception", "OutOfRangeException"])]
    L = [(c, s) for c, ss in objs for s in ss]
    for (c, s), (d, u) in itertools.product(L, repeat=2):
        body = "%s x = new %s(); %s y = new %s(); Console.WriteLine(x.GetType() == y.GetType()); Console.WriteLine(x.GetType() != y.GetType()); Type t = x.GetType(); Console.WriteLine(t == x.GetType());" % (s, c, u, d)
        yield Case("GetType of %s as %s and %s as %s" % (c.replace("@", ""), s.replace("@", ""), d.replace("@", ""), u.replace("@", "")), body, [str(c == d), str(c != d), "True"], "", D)

def dates(deep):
    for v in vals("long"):
        if v == lo("long"): continue
        e = literal(v, "long")
        yield Case("DateTime %s" % v, "DateTime d = new DateTime(%s); Console.WriteLine(d.Ticks); DateTime f = d; d = new DateTime(5L); Console.WriteLine(f.Ticks); Console.WriteLine(d.Ticks); DateTime[] a = new DateTime[2]; a[1] = f; Console.WriteLine(a[1].Ticks); Console.WriteLine(a[0].Ticks); object o = (object)f; Console.WriteLine(((DateTime)o).Ticks); DateTime.SetUtcNow(f); Console.WriteLine(P@(f)); Console.WriteLine(new DateTime(%s).Ticks);" % (e, e), [str(v), str(v), "5", str(v), "0", str(v), str(v), str(v), str(v)], "static long P@(DateTime x) { return x.Ticks; }")

def run(ex, tier):
    deep = tier == "thorough"
    ex.explore("Max and Min", binary(deep))
    ex.explore("Abs and Sign", unary(deep))
    ex.explore("functions", functions(deep))
    ex.explore("Console sequences", console(deep))
    ex.explore("Console values", extremes(deep))
    ex.explore("array lengths", arrays(deep))
    ex.explore("exception chains", exceptions(deep))
    ex.explore("exception trails", wrapped(deep))
    ex.explore("type objects", types(deep))
    ex.explore("dates", dates(deep))

if __name__ == "__main__":
    main("C25", run, "exhaustive enumeration of library calls (every overload x all pairs of boundary values x places, all pairs of console writes, all array shapes, all exception chains up to a depth, all pairs of classes and static types), executed on the real compiler, library and VM, every output line compared with a reference model of the library")
