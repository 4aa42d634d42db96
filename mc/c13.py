"""Boxing and type tests: is, as, casts, boxing and unboxing over all dynamic types x target types x places, against the subtype relation."""
from fw import *
import kinds
from kinds import T, val, show

# ---- a hierarchy with classes, interfaces, structs; the subtype relation is computed from it
HIER = {"I": ("interface", []), "J": ("interface", ["I"]), "K": ("interface", []), "M": ("interface", ["J", "K"]),
        "A": ("class", []), "B": ("class", ["A", "I"]), "Ba": ("class", ["B"]), "Bb": ("class", ["B", "K"]), "Bc": ("class", ["Ba", "J"]), "Z": ("class", ["M"]), "Y": ("class", ["Z"]),
        "S": ("struct", []), "R": ("struct", ["J"]), "Q": ("struct", ["K", "I"])}
def sup(t):
    r = {t}
    for b in HIER.get(t, ("", []))[1]: r |= sup(b)
    return r
def decls():
    out, n = "", 0
    for t, (k, bs) in HIER.items():
        base = " : " + ", ".join(bs) if bs else ""
        if k == "interface": out += "public interface %s%s { int m%s(); }\n" % (t, base, t)
        else:
            n += 1
            ms = sorted(s for s in sup(t) if HIER[s][0] == "interface")
            own = [m for m in ms if not any(m in sup(b) for b in bs if HIER[b][0] == "class")]
            # a class that lists an interface again gets the methods of its base
            out += "public %s %s%s { %s %s }\n" % (k, t, base, "public int id;" if k == "struct" or not any(HIER[b][0] == "class" for b in bs) else "",
                " ".join("public int m%s() { return id * 10 + %d; }" % (m, "IJKM".index(m)) for m in own))
    return out
PRIM = ["sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string"]
ARRS = ["int[]", "long[]", "A[]", "B[]", "S[]", "int[,]", "object[]"]
CONC = [t for t in HIER if HIER[t][0] != "interface"]
PV = {p: val(p, 0) for p in PRIM}

def make(t):
    """(statements, expression, lines it shows when unboxed)"""
    if t == "null": return "", "null"
    if t in PRIM: return "", "(object)%s" % PV[t][0]
    if t.endswith("[]"): return "", "new %s[3]" % t[:-2]
    if t.endswith("[,]"): return "", "new %s[2, 2]" % t[:-3]
    if HIER[t][0] == "struct": return "%s w = new %s(); w.id = 5;" % (t, t), "(object)w"
    return "%s w = new %s(); w.id = 5;" % (t, t), "w"

def is_(dyn, t):
    if dyn == "null": return False
    if t == "object": return True
    if t == "Array": return dyn in ARRS
    if dyn in HIER: return t in sup(dyn)
    return dyn == t

DYN = ["null"] + PRIM + ARRS + CONC
TGT = ["object", "Array"] + PRIM + ARRS + list(HIER)
NAMES = set(HIER)

def tests():
    """is, as and casts of every dynamic type held as object, to every type."""
    for d in DYN:
        pre, e = make(d)
        for t in TGT:
            yes = is_(d, t)
            body = pre + " object o = %s; Console.WriteLine(o is %s); if (o is %s) Console.WriteLine(\"in\"); else Console.WriteLine(\"out\"); bool n = !(o is %s); Console.WriteLine(n);" % (e, t, t, t)
            exp = [str(yes), "in" if yes else "out", str(not yes)]
            ref = t in ("object", "Array") or t in ARRS or (t in HIER and HIER[t][0] != "struct")
            if ref:
                body += " %s r = o as %s; Console.WriteLine(r == null); Console.WriteLine((o as %s) == null);" % (t, t, t)
                exp += [str(not yes)] * 2
                ok = yes or d == "null"
                body += " try { %s c = (%s)o; Console.WriteLine(c == null); } catch (InvalidCastException x) { Console.WriteLine(\"bad\"); } catch (NullReferenceException x) { Console.WriteLine(\"nul\"); }" % (t, t)
                exp += [str(d == "null") if ok else "bad"]
                if yes and t in HIER and HIER[t][0] == "interface":
                    for m in sorted(s for s in sup(t)):
                        body += " Console.WriteLine(((%s)o).m%s()); Console.WriteLine(r.m%s());" % (t, m, m); exp += [str(50 + "IJKM".index(m))] * 2
                if yes and t in CONC: body += " Console.WriteLine(r.id);"; exp += ["5"]
                if yes and t in ARRS and t.endswith("[]"): body += " Console.WriteLine(((%s)o).Length);" % t; exp += ["3"]
            elif t in PRIM:
                body += " try { %s c = (%s)o; %s } catch (InvalidCastException x) { Console.WriteLine(\"bad\"); } catch (NullReferenceException x) { Console.WriteLine(\"nul\"); }" % (t, t, show(t, "c"))
                exp += PV[t][1] if yes else ["nul"] if d == "null" else ["bad"]
            elif yes or d == "null":
                body += " try { %s c = (%s)o; Console.WriteLine(c.id); Console.WriteLine(((%s)o).id); } catch (InvalidCastException x) { Console.WriteLine(\"bad\"); } catch (NullReferenceException x) { Console.WriteLine(\"nul\"); }" % (t, t, t)
                exp += ["5", "5"] if yes else ["nul"]
            yield Case("object of %s to %s" % (d, t), body, exp)

def statics():
    """The same when the reference is held by any static type the object converts to."""
    for d in CONC + ["null"]:
        for s in HIER:
            if HIER[s][0] == "struct": continue
            if d != "null" and not is_(d, s): continue
            pre, e = make(d)
            hold = "%s o = %s;" % (s, e if d == "null" or HIER[d][0] == "class" else "(%s)w" % s)
            for t in HIER:
                yes = is_(d, t)
                body = pre + " " + hold + " Console.WriteLine(o is %s);" % t
                exp = [str(yes)]
                if HIER[t][0] != "struct":
                    body += " %s r = o as %s; Console.WriteLine(r == null);" % (t, t); exp.append(str(not yes))
                    body += " try { %s c = (%s)o; Console.WriteLine(c == null); } catch (InvalidCastException x) { Console.WriteLine(\"bad\"); }" % (t, t)
                    exp.append("True" if d == "null" else "False" if yes else "bad")
                elif yes:
                    body += " %s c = (%s)o; Console.WriteLine(c.id);" % (t, t); exp.append("5")
                yield Case("%s held by %s to %s" % (d, s, t), body, exp)

# ---- boxing: all kinds x source places x boxing contexts; the box is a copy
KK = ["sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string", "S1", "S3", "S12", "SN", "SR"]
SRC = {"value": ("", "V", ""), "local": ("T s = V;", "s", "s = U;"), "field": ("H@ h = new H@(); h.f = V;", "h.f", "h.f = U;"), "struct field": ("G@ g = new G@(); g.f = V;", "g.f", "g.f = U;"),
       "element": ("T[] e = new T[2]; e[1] = V;", "e[1]", "e[1] = U;"), "element2": ("T[,] m = new T[2, 2]; m[1, 0] = V;", "m[1, 0]", "m[1, 0] = U;"), "property": ("H@ h = new H@(); h.P = V;", "h.P", "h.P = U;"),
       "call": ("", "Mk@(V)", ""), "instance call": ("H@ h = new H@(); h.f = V;", "h.Get()", "h.f = U;"), "unboxed": ("object z = (object)(V);", "((T)z)", ""), "cond": ("T s = V; bool t = true;", "(t ? s : s)", "s = U;")}
DST = {"cast": "object o = (object)E;", "init": "object o = E;", "assign": "object o = null; o = E;", "argument": "object o = null; Ar@(E, ref o);", "return": "object o = null; o = Rt@();", "field": "H@ d = new H@(); d.o = E; object o = d.o;", "element": "object[] d = new object[2]; d[1] = E; object o = d[1];",
       "property": "H@ d = new H@(); d.O = E; object o = d.O;", "ctor": "N@ d = new N@(E); object o = d.o;", "instance argument": "N@ d = new N@(null); d.Put(7, E, 8); object o = d.o;", "as": "object o = E as object;", "twice": "object o = (object)(object)E;"}
def boxes(ks):
    for k in ks:
        struct = k.startswith("S")
        v, l = val(k, 0); u, _ = val(k, 1); w, lw = val(k, 1)
        for sn, (pre, e, post) in SRC.items():
            if sn == "cond" and (struct or k == "string"): continue
            if sn == "value" and k == "string" and False: continue
            for dn, code in DST.items():
                if dn == "return" and sn != "local": continue
                if sn in ("cond", "unboxed", "value") and dn == "twice": continue
                ex = e.replace("V", v).replace("T", T(k))
                mem = "static %s Mk@(%s x) { return x; } static void Ar@(object x, ref object y) { y = x; } static object Rt@() { %s s = %s; return s; }" % (T(k), T(k), T(k), v)
                dec = "public class H@ { public byte u; public %s f; public object o; public %s P { get { return f; } set { f = value; } } public %s Get() { return f; } public object O { get { return o; } set { o = value; } } } public struct G@ { public byte u; public %s f; } public class N@ { public object o; public N@(object p) { o = p; } public void Put(int a, object p, int b) { if (a + b == 15) o = p; } }" % ((T(k),) * 4)
                body = "%s %s Console.WriteLine(o is %s); %s o2 = (%s)o; %s %s %s %s" % (pre.replace("V", v).replace("T", T(k)), code.replace("E", ex), T(k), T(k), T(k), show(k, "o2"), post.replace("U", u), show(k, "(%s)o" % T(k)), "object q = o; o = (object)(%s); %s %s" % (u, show(k, "(%s)q" % T(k)), show(k, "(%s)o" % T(k))))
                yield Case("box %s from %s by %s" % (k, sn, dn), body, ["True"] + l + l + l + lw, members=mem, decls=dec)

def returns(ks):
    """Methods returning object from every source."""
    for k in ks:
        v, l = val(k, 0)
        for sn, (pre, e, post) in SRC.items():
            if sn == "cond" and (k.startswith("S") or k == "string"): continue
            mem = "static %s Mk@(%s x) { return x; } static object Rt@(int p) { %s if (p == 1) return null; return %s; }" % (T(k), T(k), pre.replace("V", v).replace("T", T(k)), e.replace("V", v).replace("T", T(k)))
            dec = "public class H@ { public byte u; public %s f; public %s P { get { return f; } set { f = value; } } public %s Get() { return f; } } public struct G@ { public byte u; public %s f; }" % ((T(k),) * 4)
            body = "object o = Rt@(0); %s o2 = (%s)o; %s %s Console.WriteLine(Rt@(1) == null); %s" % (T(k), T(k), show(k, "o2"), show(k, "(%s)Rt@(2)" % T(k)), show(k, "(%s)o" % T(k)))
            yield Case("return boxed %s from %s" % (k, sn), body, l + l + ["True"] + l, members=mem, decls=dec)

def values_is(ks):
    """is applied to values themselves."""
    for k in ks:
        v, l = val(k, 0)
        for sn, (pre, e, post) in SRC.items():
            if sn == "cond" and (k.startswith("S") or k == "string"): continue
            for t in ks + ["object", "Rf"]:
                mem = "static %s Mk@(%s x) { return x; }" % (T(k), T(k))
                dec = "public class H@ { public byte u; public %s f; public %s P { get { return f; } set { f = value; } } public %s Get() { return f; } } public struct G@ { public byte u; public %s f; }" % ((T(k),) * 4)
                ex = e.replace("V", v).replace("T", T(k))
                tt = T(t) if t != "object" else t
                yield Case("%s from %s is %s" % (k, sn, t), "%s Console.WriteLine(%s is %s);" % (pre.replace("V", v).replace("T", T(k)), ex, tt), [str(t == "object" or t == k)], members=mem, decls=dec)

# ---- histories: several boxes of several kinds, copied and replaced
def histories(n):
    OPS = [("a = (object)s;", lambda m: m.__setitem__("a", ("S", m["s"]))), ("b = a;", lambda m: m.__setitem__("b", m["a"])), ("a = b;", lambda m: m.__setitem__("a", m["b"])), ("s.v = s.v + 1;", lambda m: m.__setitem__("s", m["s"] + 1)),
           ("if (a is S) s = (S)a;", lambda m: m.__setitem__("s", m["a"][1]) if m["a"][0] == "S" else None), ("a = i;", lambda m: m.__setitem__("a", ("int", m["i"]))), ("if (b is int) i = (int)b;", lambda m: m.__setitem__("i", m["b"][1]) if m["b"][0] == "int" else None),
           ("i++;", lambda m: m.__setitem__("i", m["i"] + 1)), ("b = l;", lambda m: m.__setitem__("b", ("long", m["l"]))), ("if (a is long) l = (long)a + 1L;", lambda m: m.__setitem__("l", m["a"][1] + 1) if m["a"][0] == "long" else None),
           ("b = null;", lambda m: m.__setitem__("b", ("null", 0))), ("if (b is U) ((U)b).Up();", lambda m: m["b"][1].__setitem__(0, m["b"][1][0] + 5) if m["b"][0] == "U" else None), ("b = u;", lambda m: m.__setitem__("b", ("U", m["u"])))]
    d = "public class U { public int n; public void Up() { n = n + 5; } } public struct S { public int v; public byte c; }"
    sh = " Hs(a); Hs(b); Console.WriteLine(s.v); Console.WriteLine(i); Console.WriteLine(l); Console.WriteLine(u.n);"
    for h in itertools.product(OPS, repeat=n):
        m = {"s": 100, "i": 7, "l": 5000000000, "u": [3], "a": ("null", 0), "b": ("null", 0)}
        for _, f in h: f(m)
        def obj(o): return ["null"] if o[0] == "null" else [o[0], str(o[1][0] if o[0] == "U" else o[1])]
        exp = obj(m["a"]) + obj(m["b"]) + [str(m["s"]), str(m["i"]), str(m["l"]), str(m["u"][0])]
        yield Case(" ".join(c for c, _ in h), "U u = new U(); u.n = 3; S s = new S(); s.v = 100; s.c = (byte)9; int i = 7; long l = 5000000000L; object a = null; object b = null; " + " ".join(c for c, _ in h) + sh.replace("Hs(", "V.Hs("), exp)
HD = """public class U { public int n; public void Up() { n = n + 5; } } public struct S { public int v; public byte c; }
public class V { public static void Hs(object o) { if (o == null) Console.WriteLine("null"); else if (o is S) { Console.WriteLine("S"); Console.WriteLine(((S)o).v); } else if (o is int) { Console.WriteLine("int"); Console.WriteLine((int)o); }
 else if (o is long) { Console.WriteLine("long"); Console.WriteLine((long)o); } else if (o is U) { Console.WriteLine("U"); U u = o as U; Console.WriteLine(u.n); } else Console.WriteLine("?"); } }
"""

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = kinds.DECLS + decls()
    ex.explore("type tests of objects", tests(), batch=60)
    ex.explore("type tests by static type", statics(), batch=60)
    ex.extra = kinds.DECLS
    ex.explore("boxing", boxes(KK), batch=30)
    ex.explore("boxed returns", returns(KK), batch=30)
    ex.explore("is of values", values_is(KK if deep else ["sbyte", "uint", "int", "long", "double", "bool", "char", "string", "S1", "S12", "SR"]), batch=40)
    # unboxing to another struct type is not checked (recorded): its cases are explored apart
    ex.extra = kinds.DECLS + "public struct UA { public int v; } public struct UB { public int w; }\n"
    ex.explore("unboxing to another struct", [Case("unbox UA as UB", 'UA a = new UA(); a.v = 6; object o = a; try { UB b = (UB)o; Console.WriteLine(b.w); } catch (InvalidCastException x) { Console.WriteLine("bad"); }', ["bad"])])
    ex.extra = HD
    for n in range(1, 6 if deep else 5): ex.explore("histories of %d" % n, histories(n), batch=120)

if __name__ == "__main__":
    main("C13", run, "explicit enumeration of all dynamic types x target types x holders, boxing sources x contexts x kinds, and box histories up to a depth")
