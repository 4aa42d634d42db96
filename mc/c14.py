"""Arrays: every shape, index, length and initialiser; an access is the named element or OutOfRangeException, for every kind of element, index type and holder."""
from fw import *
import kinds
from kinds import T, show, default, many
P = itertools.product

K18 = [k for k in kinds.ALL if k != "arr"]
NUMK = ["sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"]
IDX = "ijklmn"
OOR = "catch (OutOfRangeException x) { Console.WriteLine(\"E\"); }"

def shapes(deep):
    L = (0, 1, 2, 3)
    for r in (1, 2): yield from P(L, repeat=r)
    yield from P((0, 1, 2, 3) if deep else (0, 1, 2), repeat=3)
    yield from P((1, 2), repeat=4)
    yield from [(2, 1, 2, 1, 2), (1, 2, 2, 1, 1), (1, 1, 2, 1, 1, 2), (2, 1, 1, 1, 1, 1, 2), (1, 2, 1, 1, 1, 1, 1, 2), (2, 1, 1, 1, 1, 1, 1, 1, 2), (1, 1, 2, 1, 1, 1, 1, 2, 1, 1)]

def cells(sh): return list(P(*[range(n) for n in sh]))
def dims(sh): return ", ".join(map(str, sh))
def cm(sh): return "," * (len(sh) - 1)
def at(t): return "[" + ", ".join(map(str, t)) + "]"

def around(sh, step, code):
    """Nested loops over every index from -1 to the length, of every dimension."""
    n = len(sh); v = ["i%d" % d for d in range(n)]
    s = "".join("for (int %s = -1; %s <= %d; %s++) " % (v[d], v[d], sh[d], v[d]) for d in range(n))
    return s + "{ try { " + code.replace("#", ", ".join(v)) + " } " + OOR + " }"
def ring(sh): return list(P(*[range(-1, n + 1) for n in sh]))

def shape_cases(ks, deep):
    for sh in shapes(deep):
        n = len(sh)
        for k in (ks if len(sh) <= 3 else ["byte", "long", "S3", "Rf"]):
            cs = cells(sh)
            dec = "%s[%s] a = new %s[%s];" % (T(k), cm(sh), T(k), dims(sh))
            fill = " ".join("a%s = %s;" % (at(c), many(k, i)[0]) for i, c in enumerate(cs))
            body = dec + " Console.WriteLine(a.Rank); Console.WriteLine(a.Length); "
            tot = 1
            for x in sh: tot *= x
            exp = [str(n), str(tot)]
            for d in range(-1, n + 1):
                body += "try { Console.WriteLine(a.GetLength(%d)); } %s " % (d, OOR); exp.append(str(sh[d]) if 0 <= d < n else "E")
            body += fill + " " + around(sh, 1, show(k, "a[#]"))
            for t in ring(sh): exp += many(k, cs.index(t))[1] if t in cs else ["E"]
            yield Case("%s[%s]" % (k, dims(sh)), body, exp)

def writes(ks, deep):
    """Writes at every index around the shape change one element or none."""
    sh1 = [(1,), (2,), (3,), (0,), (2, 2), (1, 3), (2, 0), (2, 1, 2)] + ([(3, 2), (2, 2, 2), (1, 2, 1, 2)] if deep else [])
    for sh in sh1:
        for k in ks:
            cs = cells(sh)
            v, lv = many(k, 20)
            forms = [("set", "a% = " + v + ";"), ("pick", "%s z = a%% = %s;" % (T(k), v))] if not k.startswith("S") else [("set", "a% = " + v + ";")]
            if k == "S3": forms += [("field", "a%.b = (short)(-77);"), ("callee", "a%.Set((short)(-77));")]
            for fn, f in forms:
                for t in ring(sh):
                    body = "%s[%s] a = new %s[%s]; %s try { %s Console.WriteLine(\"ok\"); } %s " % (T(k), cm(sh), T(k), dims(sh), " ".join("a%s = %s;" % (at(c), many(k, i)[0]) for i, c in enumerate(cs)), f.replace("%", at(t)), OOR)
                    body = body.replace("a[-1", "a[-1")
                    exp = ["ok" if t in cs else "E"]
                    for i, c in enumerate(cs):
                        body += show(k, "a" + at(c)) + " "
                        l = many(k, i)[1]
                        if c == t: l = lv if fn in ("set", "pick") else [l[0], "-77", l[2]]
                        exp += l
                    yield Case("%s[%s] %s %s" % (k, dims(sh), fn, t), body, exp)

BIG = [-2147483648, -2147483647, -65537, -65536, -4, -3, -2, -1, 0, 1, 2, 3, 4, 65535, 65536, 65537, 1073741824, 1073741823, 2147483646, 2147483647]
def extremes(ks):
    """Every extreme index in every dimension, for a read, a write, an update and an element's member."""
    for k in ks:
        for sh in [(3,), (2, 3), (3, 2), (2, 3, 4)]:
            for d in range(len(sh)):
                for rest in (0, 1):
                    body = "%s[%s] a = new %s[%s]; int b = 0; int[] q = new int[%d]; " % (T(k), cm(sh), T(k), dims(sh), len(BIG))
                    body += " ".join("q[%d] = %s;" % (i, "(%d)" % v if v != -2147483648 else "(-2147483647 - 1)") for i, v in enumerate(BIG))
                    ix = ", ".join("q[b]" if e == d else str(rest) for e in range(len(sh)))
                    if k == "S3": ops = [show(k, "a[#]"), "a[#] = %s; Console.WriteLine(\"w\");" % many(k, 0)[0], "a[#].b = (short)4; Console.WriteLine(\"w\");", "Console.WriteLine(a[#].b);"]
                    elif k == "Rf": ops = [show(k, "a[#]"), "a[#] = null; Console.WriteLine(\"w\");"]
                    else: ops = [show(k, "a[#]"), "a[#] = (%s)0; Console.WriteLine(\"w\");" % T(k), "a[#]++; Console.WriteLine(\"w\"); a[#]--;", "a[#] += (%s)0; Console.WriteLine(\"w\");" % T(k)]
                    exp = []
                    for o in ops:
                        # refresh, so that each operation reports fixed lines
                        body += "a = new %s[%s]; for (b = 0; b < %d; b++) { try { %s } %s } " % (T(k), dims(sh), len(BIG), o.replace("#", ix), OOR)
                        st = None
                        wrote = False
                        for v in BIG:
                            if not 0 <= v < sh[d]: exp.append("E")
                            elif o.startswith("W."): exp += default(k)
                            elif o.startswith("Console"): exp.append("0")
                            else: exp.append("w")
                    yield Case("extreme index %s[%s] dimension %d rest %d" % (k, dims(sh), d, rest), body, exp)

ITY = {"sbyte": (-128, 127), "byte": (0, 255), "short": (-32768, 32767), "ushort": (0, 65535), "int": (-2147483647, 2147483647), "uint": (0, 4294967295), "long": (-2147483648, 2147483647), "ulong": (0, 2147483647), "char": (0, 127)}
PLACES = {"local": ("T i = V;", "i"), "literal": ("", "V"), "parameter": None, "field": ("F@ h = new F@(); h.f = V;", "h.f"), "struct field": ("G@ h = new G@(); h.f = V;", "h.f"), "element": ("T[] e = new T[2]; e[1] = V;", "e[1]"), "property": ("F@ h = new F@(); h.P = V;", "h.P"),
          "call": ("", "Id@(V)"), "instance call": ("F@ h = new F@(); h.f = V;", "h.Get()"), "cast": ("long l = WL; ", "((T)l)"), "sum": ("T i = V; T z = (T)0;", "(i + z)"), "postfix": ("T i = V;", "i++"), "cond": ("T i = V; bool t = true;", "(t ? i : i)"), "assigned": ("T i = (T)0;", "(i = V)")}
def itypes():
    for ty, (lo, hi) in ITY.items():
        vals = sorted({0, 1, 2, 3, 4, lo, hi} | ({-1} if lo < 0 else set()))
        for pn, pl in PLACES.items():
            if ty == "char" and pn in ("sum", "postfix", "cast"): continue
            for v in vals:
                if ty == "ulong" and v > 5 and pn == "sum": continue
                lit = "(%s)%s" % (ty, ("%dL" % v if v >= 0 else "(-%dL)" % -v)) if ty != "int" else "(%d)" % v
                if ty == "char": lit = "(char)%d" % v
                dec = "public class F@ { public byte u; public %s f; public %s P { get { return f; } set { f = value; } } public %s Get() { return f; } } public struct G@ { public byte u; public %s f; }" % ((ty,) * 4)
                mem = "static %s Id@(%s x) { return x; }" % (ty, ty)
                ok = 0 <= v < 3
                use = "int[] a = new int[3]; a[1] = 101; a[2] = 102; short[,] m = new short[2, 3]; m[1, 1] = (short)7; m[1, 2] = (short)8; "
                sub = lambda e: e.replace("WL", "%dL" % v if v >= 0 else "(-%dL)" % -v).replace("V", lit).replace("T", ty)
                acts = [("Console.WriteLine(a[%s]);", str((0, 101, 102)[v]) if ok else "E"), ("a[%s] = 5; Console.WriteLine(a[1]);", ("5" if v == 1 else "101") if ok else "E"), ("Console.WriteLine(m[1, %s]);", str((0, 7, 8)[v]) if ok else "E"), ("m[%s, 2] = (short)9; Console.WriteLine(m[1, 2]);", ("9" if v == 1 else "8") if 0 <= v < 2 else "E"),
                        ("a[%s] += 3; Console.WriteLine(a[2]);", ("105" if v == 2 else "102") if ok else "E")]
                for n, (act, e) in enumerate(acts):
                    if n == 4 and pn in ("postfix", "call", "instance call", "assigned"): continue
                    if pl is None:
                        yield Case("index %s parameter %d, use %d" % (ty, v, n), "Go@(%s);" % lit, [e], members="static void Go@(%s i) { %s try { %s } %s }" % (ty, use, act % "i", OOR))
                    else:
                        yield Case("index %s %s %d, use %d" % (ty, pn, v, n), use + sub(pl[0]) + " try { " + act % sub(pl[1]) + " } " + OOR, [e], members=mem, decls=dec)

def lengths():
    """Lengths of every type and value; a negative or too large one raises OutOfRangeException."""
    for ty, (lo, hi) in ITY.items():
        if ty == "char": continue
        for v in sorted({0, 1, 2, 5, 100} | ({lo, -1, -2} if lo < 0 else set())):
            lit = "(%s)%s" % (ty, ("%dL" % v if v >= 0 else "(-%dL)" % -v)) if ty != "int" else "(%d)" % v
            for pn, pre, e in (("local", "%s n = %s;" % (ty, lit), "n"), ("literal", "", lit)):
                for k in ("int", "byte", "S3", "Rf"):
                    yield Case("length %s %s %d of %s" % (ty, pn, v, k), "%s try { %s[] a = new %s[%s]; Console.WriteLine(a.Length); if (a.Length > 0) { %s } } %s" % (pre, T(k), T(k), e, show(k, "a[a.Length - 1]"), OOR), [str(v)] + (default(k) if v else []) if v >= 0 else ["E"])
                    yield Case("lengths %s %s 2, %d of %s" % (ty, pn, v, k), "%s try { %s[,] a = new %s[2, %s]; Console.WriteLine(a.Length); Console.WriteLine(a.GetLength(0)); Console.WriteLine(a.GetLength(1)); } %s" % (pre, T(k), T(k), e, OOR), [str(2 * v), "2", str(v)] if v >= 0 else ["E"])
    for dim in [(65536, 65536), (65536, 32768), (2, 1073741824), (1024, 1024, 4096), (-1, -1), (-2, 0), (0, -2), (3, -1, 2), (2147483647, 2147483647)]:
        yield Case("lengths %s" % (dim,), "try { byte[%s] a = new byte[%s]; Console.WriteLine(a.Length); } %s" % ("," * (len(dim) - 1), ", ".join(map(str, dim)), OOR), ["E"])
    for dim in [(0, 65536), (65536, 0), (1, 1000), (0, 2147483647)]:
        yield Case("lengths %s" % (dim,), "try { byte[,] a = new byte[%d, %d]; Console.WriteLine(a.Length); Console.WriteLine(a.GetLength(0)); Console.WriteLine(a.GetLength(1)); } %s" % (dim + (OOR,)), [str(dim[0] * dim[1]), str(dim[0]), str(dim[1])])

IK = ["sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string", "Rf", "obj"]
def inits():
    for k in IK:
        for n in (1, 2, 3, 5, 9):
            for form in ("[]", "[%d]" % n):
                for src in ("value", "local", "call"):
                    vs = [many(k, i) for i in range(n)]
                    pre, el = "", [v for v, _ in vs]
                    if src == "local": pre, el = " ".join("%s w%d = %s;" % (T(k), i, v) for i, (v, _) in enumerate(vs)), ["w%d" % i for i in range(n)]
                    if src == "call": el = ["Id@(%s)" % v for v, _ in vs]
                    body = "%s %s u = %s; %s[] a = new %s%s{%s}; %s z = u; Console.WriteLine(a.Length); %s %s" % (pre, T(k), many(k, 30)[0], T(k), T(k), form, ", ".join(el), T(k), " ".join(show(k, "a[%d]" % i) for i in range(n)), show(k, "z"))
                    yield Case("init %s%s of %d from %s" % (k, form, n, src), body, [str(n)] + [x for _, l in vs for x in l] + many(k, 30)[1], members="static %s Id@(%s x) { return x; }" % (T(k), T(k)))
        for sh in [(1, 1), (2, 2), (2, 3), (3, 1), (1, 3), (2, 2, 2), (1, 2, 3), (2, 1, 2, 1)]:
            for form in ("[" + cm(sh) + "]", "[" + dims(sh) + "]"):
                it = iter(range(1000))
                def nest(d): return "{" + ", ".join(nest(d + 1) if d + 1 < len(sh) else many(k, next(it))[0] for _ in range(sh[d])) + "}"
                body = "%s[%s] a = new %s%s%s; Console.WriteLine(a.Length); %s %s" % (T(k), cm(sh), T(k), form, nest(0), " ".join("Console.WriteLine(a.GetLength(%d));" % d for d in range(len(sh))), " ".join(show(k, "a" + at(c)) for c in cells(sh)))
                cs = cells(sh)
                yield Case("init %s%s %s" % (k, form, sh), body, [str(len(cs))] + [str(x) for x in sh] + [x for i in range(len(cs)) for x in many(k, i)[1]])
    # widening of the initial values
    W = {"short": ["sbyte"], "int": ["sbyte", "short"], "long": ["sbyte", "short", "int"], "ushort": ["byte"], "uint": ["byte", "ushort"], "ulong": ["byte", "ushort", "uint"], "float": ["int", "short"], "double": ["float", "int", "long"]}
    for t, fs in W.items():
        for f in fs:
            for src in ("value", "local"):
                v = 5
                lit = {"float": "5f"}.get(f, "(%s)5" % f if f != "int" else "5")
                body = "%s w = %s; %s[] a = new %s[]{(%s)1, %s, (%s)3, %s}; for (int i = 0; i < a.Length; i++) Console.WriteLine(a[i]);" % (f, lit, t, t, t, lit if src == "value" else "w", t, "w" if src == "value" else lit)
                yield Case("init %s from %s %s" % (t, f, src), body, ["1", "5", "3", "5"])
    for a, b in P(["5", "\"s\"", "null", "new Rf(3)", "2.5", "true", "(byte)9"], repeat=2):
        sh = lambda e: {"5": "5", "\"s\"": "s", "null": "null", "new Rf(3)": "3", "2.5": "2.5", "true": "True", "(byte)9": "9"}[e]
        yield Case("init object %s, %s" % (a, b), "object[] a = new object[]{%s, %s, %s}; Ob.Sh(a[0]); Ob.Sh(a[1]); Ob.Sh(a[2]);" % (a, b, a), [sh(a), sh(b), sh(a)])
OB = "public class Ob { public static void Sh(object o) { if (o == null) Console.WriteLine(\"null\"); else if (o is int) Console.WriteLine((int)o); else if (o is string) Console.WriteLine((string)o); else if (o is Rf) { Rf r = (Rf)o; Console.WriteLine(r.v); } else if (o is double) Console.WriteLine((double)o); else if (o is bool) Console.WriteLine((bool)o); else if (o is byte) Console.WriteLine((byte)o); else Console.WriteLine(\"?\"); } }\n"

HOLD = {"local": ("int[,] a = N;", "a"), "field": ("H h = new H(); h.a = N;", "h.a"), "struct field": ("HS h = new HS(); h.a = N;", "h.a"), "property": ("H h = new H(); h.P = N;", "h.P"), "call": ("H h = new H(); h.a = N;", "H.Id(h.a)"), "instance call": ("H h = new H(); h.a = N;", "h.Get()"), "object": ("object o = N;", "((int[,])o)"),
        "object element": ("object[] o = new object[2]; o[1] = N;", "((int[,])o[1])"), "field of field": ("H h = new H(); h.n = new H(); h.n.a = N;", "h.n.a"), "element's field": ("H[] q = new H[2]; q[1] = new H(); q[1].a = N;", "q[1].a"), "struct element's field": ("HS[] q = new HS[2]; q[1].a = N;", "q[1].a"), "call's field": ("H h = new H(); h.a = N;", "H.Self(h).a"), "boxed": ("object o = (object)N;", "((int[,])o)")}
HD = "public class H { public int[,] a; public byte z; public H n; public int[,] P { get { return a; } set { a = value; } } public int[,] Get() { return a; } public static int[,] Id(int[,] p) { return p; } public static H Self(H h) { return h; } }\npublic struct HS { public byte z; public int[,] a; }\n"
def holders():
    for (n1, (p1, e1)), (n2, (p2, e2)) in P(HOLD.items(), repeat=2):
        sub = lambda s, w: s
        pre = p1.replace("N", "new int[2, 3]")
        ren = lambda s: s
        # the second holder in a block of its own method
        acts = [("%s[1, 2] = 5; Console.WriteLine(%s[1, 2]); Console.WriteLine(%s[0, 2]);", ["5", "0"]), ("%s[0, 1] = 7; %s[0, 1] += 2; Console.WriteLine(%s[0, 1]++);", ["9"]), ("Console.WriteLine(%s.Length); Console.WriteLine(%s.GetLength(1)); Console.WriteLine(%s.Rank);", ["6", "3", "2"])]
        if n1 == n2:
            for i, (a, e) in enumerate(acts):
                if i == 1 and n1 in ("call", "instance call", "call's field"): continue
                yield Case("holder %s, %d" % (n1, i), pre + " " + a % (e1, e1, e1), e)
        else:
            mem = "static void Q@(int[,] s) { %s %s[1, 1] = %s[1, 1] + 40; %s[0, 0] = 3; }" % (p2.replace("N", "s"), e2, e2, e2)
            yield Case("%s passed to %s" % (n1, n2), pre + " %s[1, 1] = 2; Q@(%s); Console.WriteLine(%s[1, 1]); Console.WriteLine(%s[0, 0]); Console.WriteLine(%s[1, 0]);" % ((e1,) * 5), ["42", "3", "0"], members=mem)

OPS = {"a[0] = a[1];": lambda m: st(m, "a", 0, rd(m, "a", 1)), "b = a;": lambda m: m.__setitem__("b", m["a"]), "a = new int[2];": lambda m: m.__setitem__("a", [0, 0]), "b = new int[3];": lambda m: m.__setitem__("b", [0, 0, 0]), "a[1] = 7;": lambda m: st(m, "a", 1, 7), "b[2] = 8;": lambda m: st(m, "b", 2, 8),
       "b[0]++;": lambda m: st(m, "b", 0, rd(m, "b", 0) + 1), "t = a; a = b; b = t;": lambda m: m.update(a=m["b"], b=m["a"], t=m["a"]), "i = b[0];": lambda m: m.__setitem__("i", rd(m, "b", 0)), "a[i] = i + 10;": lambda m: st(m, "a", m["i"], m["i"] + 10), "i = a.Length;": lambda m: m.__setitem__("i", len(m["a"])), "i--;": lambda m: m.__setitem__("i", m["i"] - 1),
       "b[i] += 3;": lambda m: st(m, "b", m["i"], rd(m, "b", m["i"]) + 3), "AH.Put(a, b[1]);": lambda m: (lambda v: st(m, "a", 0, v + 1))(rd(m, "b", 1)), "b = AH.Twice(a);": lambda m: m.__setitem__("b", [2 * x for x in m["a"]]), "a[0] = b[0] = 6;": lambda m: (st(m, "b", 0, 6), st(m, "a", 0, 6))}
class OutOf(Exception): pass
def rd(m, n, i):
    if not 0 <= i < len(m[n]): raise OutOf
    return m[n][i]
def st(m, n, i, v):
    if not 0 <= i < len(m[n]): raise OutOf
    m[n][i] = v
AH = "public class AH { public static void Put(int[] p, int v) { p[0] = v + 1; p = new int[5]; p[0] = 99; } public static int[] Twice(int[] p) { int[] r = new int[p.Length]; for (int i = 0; i < p.Length; i++) r[i] = p[i] * 2; return r; } public static void Sh(int[] p) { int h = p.Length; for (int i = 0; i < p.Length; i++) h = h * 100 + p[i]; Console.WriteLine(h); } }\n"
def histories(n, ops):
    for h in itertools.product(ops, repeat=n):
        m = {"a": [1, 2], "b": [3, 4, 5], "i": 1, "t": None}
        exp = []
        for o in h:
            try: OPS[o](m)
            except OutOf: exp.append("E")
        for q in ("a", "b"):
            v = len(m[q])
            for x in m[q]: v = v * 100 + x
            exp.append(str(v))
        exp.append(str(m["i"]))
        yield Case(" ".join(h), "int[] a = new int[]{1, 2}; int[] b = new int[]{3, 4, 5}; int[] t = null; int i = 1; " + " ".join("try { %s } %s" % (o, OOR) for o in h) + " AH.Sh(a); AH.Sh(b); Console.WriteLine(i);", exp)

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = kinds.DECLS.replace("public struct S3 {", "public struct S3 { public void Set(short v) { b = v; }")
    ex.explore("shapes", shape_cases(K18 if deep else ["byte", "short", "int", "long", "double", "bool", "S1", "S3", "SN", "Rf"], deep), batch=40)
    ex.explore("writes around shapes", writes(K18 if deep else ["sbyte", "ushort", "int", "long", "float", "double", "bool", "S1", "S3", "S12", "SR", "Rf"], deep), batch=80)
    ex.explore("extreme indexes", extremes(NUMK + ["S3", "Rf"]), batch=10)
    ex.explore("index types", itypes(), batch=80)
    ex.explore("lengths", lengths(), batch=60)
    ex.extra = kinds.DECLS + OB
    ex.explore("initialisers", inits(), batch=40)
    ex.extra = HD
    ex.explore("holders", holders(), batch=60)
    ex.extra = AH
    o = list(OPS)
    for n in (1, 2, 3): ex.explore("histories of %d" % n, histories(n, o), batch=120)
    ex.explore("histories of 4", histories(4, o if deep else o[:10]), batch=120)
    if deep: ex.explore("histories of 5", histories(5, o[:10]), batch=120)

if __name__ == "__main__":
    main("C14", run, "explicit enumeration of all array shapes, indexes around and far from them, index and length types, initialisers, holders, and array histories up to a depth")
