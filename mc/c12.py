"""Dispatch: every virtual, interface and plain call runs the method its receiver's type selects, for all hierarchies up to a bound."""
from fw import *
import kinds
from kinds import T, val, show

# kinds of declaration of a method in a class: - none, p plain, v virtual, o override, n new, w new virtual, a abstract, b abstract override
WORDS = {"p": "public", "v": "public virtual", "o": "public override", "n": "public new", "w": "public new virtual", "a": "public abstract", "s": "public sealed override"}

def legal(chain):
    """chain: declarations of one method from the base down."""
    near = None                      # nearest visible declaration
    for k in chain:
        if k == "-": continue
        if k in "pva" and near is not None: return False
        if k in "nw" and near is None: return False
        if k in "os" and near not in ("v", "o", "w", "a"): return False
        near = k
    return True

def target(chain, static, dyn):
    """Level of the method that runs for a call by a reference of type static on an object of type dyn; None if not declared."""
    near = next((i for i in range(static, -1, -1) if chain[i] != "-"), None)
    if near is None: return None
    if chain[near] in "pn": return near
    while chain[near] in "os":           # the slot it overrides
        near = next(i for i in range(near - 1, -1, -1) if chain[i] != "-")
    res = near
    for i in range(near + 1, dyn + 1):
        if chain[i] in "os": res = i
        elif chain[i] != "-": break      # hidden below
    return res

def itarget(chain, lists, dyn):
    """The same for an interface listed by the classes in lists."""
    l = max(i for i in lists if i <= dyn)
    return target(chain, l, dyn)

def method(m, i, k):
    if k == "-": return ""
    sig = {"F": "int F()", "G": "int G(int x)", "H": "int H(long y, byte x)"}[m]
    if k == "a": return WORDS[k] + " " + sig + ";"
    code = {"F": "return %d;" % (i + 1), "G": "return %d + x;" % (10 * (i + 1)), "H": "return %d + x;" % (1000 * (i + 1))}[m]
    return "%s %s { %s }" % (WORDS[k], sig, code)
CALL = {"F": ("F()", lambda i: i + 1), "G": ("G(3)", lambda i: 10 * (i + 1) + 3), "H": ("H(5000000000L, (byte)7)", lambda i: 1000 * (i + 1) + 7)}

def hierarchy(key, chains, ilists=None, extra_calls=True):
    """chains: {method: declarations}; ilists: {interface: (methods, levels)}."""
    n = len(next(iter(chains.values())))
    abstract = [any(c[i] == "a" for c in chains.values()) for i in range(n)]
    for i in range(1, n):                # still abstract while a slot has no implementation
        for c in chains.values():
            for j in range(i):
                if c[j] == "a" and target(c, j, i) == j: abstract[i] = True
    decls, body, exp = "", [], []
    for nm, (ms, lv) in (ilists or {}).items():
        decls += "public interface %s@ { %s } " % (nm, " ".join({"F": "int F();", "G": "int G(int x);", "H": "int H(long y, byte x);"}[m] for m in ms))
    for i in range(n):
        bases = (["L%d@" % (i - 1)] if i else []) + [nm + "@" for nm, (ms, lv) in (ilists or {}).items() if i in lv]
        self_calls = ""
        if extra_calls:
            for m, c in chains.items():
                if target(c, i, i) is not None: self_calls += "public int S%s%d() { return %s; } " % (m, i, CALL[m][0])
        decls += "public %sclass L%d@%s { %s %s} " % ("abstract " if abstract[i] else "", i, " : " + ", ".join(bases) if bases else "", " ".join(method(m, i, c[i]) for m, c in chains.items()), self_calls)
    for d in range(n):
        if abstract[d]: continue
        for s in range(d + 1):
            cs = [(m, target(c, s, d)) for m, c in chains.items()]
            if all(t is None for _, t in cs): continue
            v = "v%d%d" % (d, s)
            body.append("L%d@ %s = new L%d@();" % (s, v, d))
            for m, t in cs:
                if t is None: continue
                body.append("Console.WriteLine(%s.%s);" % (v, CALL[m][0])); exp.append(str(CALL[m][1](t)))
                if extra_calls:
                    body.append("Console.WriteLine(%s.S%s%d());" % (v, m, s)); exp.append(str(CALL[m][1](t)))
        for nm, (ms, lv) in (ilists or {}).items():
            if not any(l <= d for l in lv): continue
            v = "%s%d" % (nm.lower(), d)
            body.append("%s@ %s = new L%d@();" % (nm, v, d))
            for m in ms:
                body.append("Console.WriteLine(%s.%s);" % (v, CALL[m][0])); exp.append(str(CALL[m][1](itarget(chains[m], lv, d))))
    return Case(key, " ".join(body), exp, decls=decls)

def chains_of(n, alphabet): return [c for c in itertools.product(alphabet, repeat=n) if legal(c) and any(k != "-" for k in c)]

def one(n, alphabet):
    for c in chains_of(n, alphabet): yield hierarchy("F %s" % " ".join(c), {"F": c})

def two(n, alphabet):
    cs = chains_of(n, alphabet)
    for a, b in itertools.product(cs, repeat=2): yield hierarchy("F %s; G %s" % (" ".join(a), " ".join(b)), {"F": a, "G": b}, extra_calls=False)

def three(n, alphabet):
    cs = chains_of(n, alphabet)
    for a, b, c in itertools.product(cs, repeat=3): yield hierarchy("F %s; G %s; H %s" % (" ".join(a), " ".join(b), " ".join(c)), {"F": a, "G": b, "H": c}, extra_calls=False)

def placements(chain_list, n):
    first = max(next(i for i, k in enumerate(c) if k != "-") for c in chain_list)
    lv = range(first, n)
    for r in range(1, len(lv) + 1):
        for ls in itertools.combinations(lv, r): yield ls

def faces(n, alphabet):
    for c in chains_of(n, alphabet):
        if "a" in c and not all(k != "a" for k in c[1:]): continue
        for ls in placements([c], n): yield hierarchy("F %s; I at %s" % (" ".join(c), ls), {"F": c}, {"I": (["F"], ls)})

def faces2(n, alphabet, orders):
    cs = chains_of(n, alphabet)
    for a, b in itertools.product(cs, repeat=2):
        for ms in orders:
            for ls in placements([a, b], n):
                yield hierarchy("F %s; G %s; I {%s} at %s" % (" ".join(a), " ".join(b), " ".join(ms), ls), {"F": a, "G": b}, {"I": (list(ms), ls)}, False)

def multi(n, alphabet):
    """Two interfaces with common and distinct methods, listed at all pairs of levels."""
    cs = chains_of(n, alphabet)
    for a, b in itertools.product(cs, repeat=2):
        for m1, m2 in ((["F"], ["G"]), (["F", "G"], ["G", "F"]), (["G"], ["F", "G"]), (["F"], ["F"])):
            for l1 in placements([a, b], n):
                for l2 in placements([a, b], n):
                    yield hierarchy("F %s; G %s; I {%s} at %s; J {%s} at %s" % (" ".join(a), " ".join(b), " ".join(m1), l1, " ".join(m2), l2), {"F": a, "G": b},
                                    {"I": (m1, l1), "J": (m2, l2)}, False)

# ---- interfaces that extend interfaces
def inherit():
    sigs = {"F": "int F();", "G": "int G(int x);", "H": "int H(long y, byte x);"}
    for own in itertools.product(["", "F", "G", "H", "FG"], repeat=3):
        seen = "".join(own)
        if len(set(seen)) != len(seen) or not seen: continue
        for shape in ("chain", "fan", "diamond"):
            sup = {"chain": ("", "I0@", "I1@"), "fan": ("", "", "I0@, I1@"), "diamond": ("", "I0@", "I0@, I1@")}[shape]
            decls = " ".join("public interface I%d@%s { %s }" % (i, " : " + sup[i] if sup[i] else "", " ".join(sigs[m] for m in own[i])) for i in range(3))
            has = [set(own[0]), set(own[1]) | (set() if shape == "fan" else set(own[0])), set(seen)]
            for impl in ("I2@", "I0@, I1@, I2@", "I2@, I0@"):
                for virt in ("", "virtual "):
                    d = decls + " public class A@ : %s { %s } public class B@ : A@ { %s }" % (impl, " ".join(method(m, 0, "v" if virt else "p") for m in "FGH"), " ".join(method(m, 1, "o") for m in "FGH") if virt else "")
                    body, exp = "", []
                    for t in range(2):
                        for i in range(3):
                            if not has[i]: continue
                            body += "I%d@ x%d%d = new %s@(); " % (i, t, i, "AB"[t])
                            for m in "FGH":
                                if m not in has[i]: continue
                                body += "Console.WriteLine(x%d%d.%s); " % (t, i, CALL[m][0]); exp.append(str(CALL[m][1](t if virt else 0)))
                    yield Case("interfaces %s %s by %s %s" % (shape, own, impl.replace("@", ""), virt), body, exp, decls=d)

# ---- layouts: parameters and results of every kind through virtual and interface calls
KK = ["sbyte", "short", "int", "uint", "long", "float", "double", "bool", "char", "string", "En", "S1", "S3", "S12", "SN", "SR", "Rf", "obj", "arr"]
def layouts(ks, n):
    for combo in itertools.product(ks, repeat=n):
        for ret in range(n):
            rk = combo[ret]
            ps = ", ".join("%s p%d" % (T(k), i) for i, k in enumerate(combo))
            sh = " ".join(show(k, "p%d" % i) for i, k in enumerate(combo))
            d = ("public interface I@ { %s F(%s); } public class A@ { public int g; public virtual %s F(%s) { Console.WriteLine(1); %s return p%d; } } public class B@ : A@, I@ { public override %s F(%s) { Console.WriteLine(2); Console.WriteLine(g); %s return p%d; } }"
                 % (T(rk), ps, T(rk), ps, sh, ret, T(rk), ps, sh, ret))
            args = lambda w: ", ".join(val(k, i + w)[0] for i, k in enumerate(combo))
            ex = lambda w, head: head + [l for i, k in enumerate(combo) for l in val(k, i + w)[1]] + val(rk, ret + w)[1]
            body = "A@ a = new A@(); B@ b = new B@(); b.g = 6; A@ c = b; I@ i = b; " + " ".join(show(rk, "%s.F(%s)" % (r, args(w))) for r, w in (("a", 0), ("c", 1), ("i", 2), ("b", 0)))
            yield Case("layout %s returns %d" % (" ".join(combo), ret), body, ex(0, ["1"]) + ex(1, ["2", "6"]) + ex(2, ["2", "6"]) + ex(0, ["2", "6"]), decls=d)

# ---- places a receiver can be held in
PLACES = {"local": "X@ r = O;", "param": None, "field": "H@ h = new H@(); h.f = O;", "struct field": "Q@ q = new Q@(); q.f = O;", "element": "X@[] e = new X@[2]; e[1] = O;", "element2": "X@[,] m = new X@[2, 2]; m[1, 0] = O;",
          "call": None, "property": "H@ h = new H@(); h.P = O;", "cast": "object z = O;", "new": None, "cond": "X@ r = O; bool t = true;", "as": "object z = O;", "ref": None}
USES = {"local": "r", "param": "r", "field": "h.f", "struct field": "q.f", "element": "e[1]", "element2": "m[1, 0]", "call": "Mk@(%d)", "property": "h.P", "cast": "((X@)z)", "cond": "(t ? r : null)", "as": "(z as X@)", "ref": "r"}
def places():
    for st in ("A", "I"):
        d = "public interface I@ { int F(); } public class A@ : I@ { public int k; public virtual int F() { return 1 + k; } } public class B@ : A@ { public override int F() { return 20 + k; } } public class D@ : B@ { public override int F() { return 30 + k; } } public class H@ { public int u; public X@ f; public X@ P { get { return f; } set { f = value; } } } public struct Q@ { public byte u; public X@ f; }".replace("X@", st + "@")
        for pl in USES:
            for dyn, r in (("A", 1), ("B", 20), ("D", 30)):
                obj = "new %s@()" % dyn
                mem = "static %s@ Mk@(int k) { if (k == 1) return new A@(); if (k == 20) return new B@(); return new D@(); } " % st
                use = USES[pl].replace("X@", st + "@")
                if pl == "call": use = use % r
                calls = "Console.WriteLine(%s.F()); int y = 5 + %s.F() * 2; Console.WriteLine(y); if (%s.F() > %d) Console.WriteLine(\"no\"); else Console.WriteLine(\"yes\"); int[] g = new int[50]; g[%s.F()] = 8; Console.WriteLine(g[%d]); %s.F(); Console.WriteLine(%s.F() + %s.F());" % (use, use, use, r, use, r, use, use, use)
                exp = [str(r), str(5 + 2 * r), "yes", "8", str(2 * r)]
                if pl in ("param", "ref"):
                    mem += "static void Do@(%s%s@ r) { %s }" % ("ref " if pl == "ref" else "", st, calls)
                    body = "%s@ o = %s; Do@(%so);" % (st, obj, "ref " if pl == "ref" else "")
                else:
                    body = (PLACES[pl] or "").replace("X@", st + "@").replace("O;", obj + ";") + " " + calls
                yield Case("receiver %s by %s, object of %s" % (pl, st, dyn), body, exp, members=mem, decls=d)

# ---- chains of calls, properties and fields, used and discarded
def chains(n):
    d = "public class A@ { public int v; public A@ n; public static int log; public virtual A@ N() { return n; } public A@ P { get { return n; } } public int F() { v = v * 2 + 1; return v; } public virtual void S() { v = v * 3; } } public class B@ : A@ { public override A@ N() { return this; } public override void S() { v = v + 100; } }".replace("public static int log; ", "")
    for path in itertools.product(["N()", "P", "n"], repeat=n):
        for end in ("F();", "S();", "N();", "v = 50;", "v++;", "v += 4;", "n.v = 60;"):
            for use in (0, 1):
                if use and end in ("S();", "N();"): continue
                # x (an A) -> y (a B) -> x
                vs = {"x": 1, "y": 2}
                cur = "x"
                for st in path: cur = "y" if cur == "x" else ("y" if st == "N()" else "x")
                body, exp = "A@ x = new A@(); A@ y = new B@(); x.n = y; y.n = x; x.v = 1; y.v = 2; ", []
                e = "x." + ".".join(path) + "." + end
                body += ("for (int i = 0; i < 2; i++) { %s } " % e) if not use else ("for (int i = 0; i < 2; i++) { int r = %s Console.WriteLine(r); } " % e)
                for _ in range(2):
                    if end == "F();": vs[cur] = vs[cur] * 2 + 1; r = vs[cur]
                    elif end == "S();": vs[cur] = vs[cur] * 3 if cur == "x" else vs[cur] + 100
                    elif end == "v = 50;": vs[cur] = r = 50
                    elif end == "v++;": r = vs[cur]; vs[cur] += 1
                    elif end == "v += 4;": vs[cur] += 4; r = vs[cur]
                    elif end == "n.v = 60;": vs["y" if cur == "x" else "x"] = r = 60
                    if use: exp.append(str(r))
                yield Case("chain %s%s" % (e, " used" if use else ""), body + "Console.WriteLine(x.v); Console.WriteLine(y.v);", exp + [str(vs["x"]), str(vs["y"])], decls=d)

# ---- properties, structs behind interfaces, overloads
def props_():
    for base, der in itertools.product(("virtual", "plain"), ("override", "new", "-")):
        if base == "plain" and der == "override": continue
        for iface in (0, 1):
            d = ("public interface I@ { int P { get; set; } } public class A@ %s { public int f; public %sint P { get { return f + 1; } set { f = value; } } } public class B@ : A@ { %s }"
                 % (": I@" if iface else "", "virtual " if base == "virtual" else "", "" if der == "-" else "public %s int P { get { return f * 10; } set { f = value + 2; } }" % der))
            body = "A@ a = new A@(); A@ b = new B@(); B@ c = new B@(); a.P = 5; b.P = 6; c.P = 7; Console.WriteLine(a.P); Console.WriteLine(b.P); Console.WriteLine(c.P);"
            n = lambda v: v + 1
            m = lambda v: (v + 2) * 10
            exp = [n(5), m(6) if der == "override" else n(6), n(7) if der == "-" else m(7)]
            if iface:
                body += " I@ i = new B@(); i.P = 8; Console.WriteLine(i.P);"; exp.append(m(8) if der == "override" else n(8))
            yield Case("property %s %s %d" % (base, der, iface), body, [str(x) for x in exp], decls=d)

def structs():
    for k in range(1, 4):
        for order in itertools.permutations("FGH", k):
            d = "public interface I@ { %s } public struct V@ : I@ { public byte b; public long n; public V@(long p) { n = p; b = (byte)3; } public int F() { n = n + 1L; return (int)n; } public int G(int x) { return (int)n * x; } public int H(long y, byte x) { n = n + (long)x; return (int)b; } }" % " ".join({"F": "int F();", "G": "int G(int x);", "H": "int H(long y, byte x);"}[m] for m in order)
            for mk in ("V@ v = new V@(40L); I@ i = (I@)v;", "I@ i = new V@(40L);", "V@ v = new V@(40L); I@ i = v;", "V@[] w = new V@[2]; w[1] = new V@(40L); I@ i = w[1];"):
                for seq in itertools.product(order, repeat=3):
                    n, exp = 40, []
                    for m in seq:
                        if m == "F": n += 1; exp.append(n)
                        elif m == "G": exp.append(n * 4)
                        else: n += 9; exp.append(3)
                    yield Case("struct %s %s %s" % (" ".join(order), mk.replace("@", ""), " ".join(seq)), mk + " " + " ".join("Console.WriteLine(i.%s);" % {"F": "F()", "G": "G(4)", "H": "H(1L, (byte)9)"}[m] for m in seq), [str(x) for x in exp], decls=d)

OV = {"int": "1", "long": "2L", "bool": "true", "double": "1.5", "string": '"s"', "char": "'c'"}
def overloads(n):
    for ts in itertools.permutations(OV, n):
        for over in itertools.product((0, 1), repeat=n):
            d = "public class A@ { %s } public class B@ : A@ { %s } public class D@ : B@ { %s }" % (" ".join("public virtual int F(%s x) { return %d; }" % (t, i) for i, t in enumerate(ts)),
                " ".join("public override int F(%s x) { return %d; }" % (t, 10 + i) for i, t in reversed(list(enumerate(ts))) if over[i]), "public virtual int G() { return 90; } public override int F(%s x) { return 20; }" % ts[0])
            body, exp = "A@ a = new A@(); A@ b = new B@(); A@ c = new D@(); D@ e = new D@();", []
            for v in "abce":
                for i, t in enumerate(ts):
                    if v == "e" and i: continue      # whether an override in the nearest class hides better matches above is not defined
                    body += " Console.WriteLine(%s.F(%s));" % (v, OV[t])
                    exp.append(str(i if v == "a" else 20 if v in "ce" and i == 0 else 10 + i if over[i] else i))
            body += " Console.WriteLine(e.G());"; exp.append("90")
            yield Case("overloads %s overriding %s" % (" ".join(ts), over), body, exp, decls=d)

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = kinds.DECLS
    ex.explore("one method, chains of 4", one(4, "-pvonw"), batch=60)
    ex.explore("one method, abstract and sealed", one(4, "-avos"), batch=60)
    ex.explore("two methods, chains of 3", two(3, "-pvonw"), batch=60)
    ex.explore("three methods, chains of 2", three(2, "-pvo"), batch=60)
    ex.explore("one interface, chains of 4", faces(4, "-pvonw"), batch=60)
    ex.explore("two methods in an interface", faces2(3, "-pvonw" if deep else "-pvo", (("F", "G"), ("G", "F"))), batch=60)
    ex.explore("two interfaces", multi(3 if deep else 2, "-pvo"), batch=60)
    ex.explore("interfaces of interfaces", inherit(), batch=60)
    ex.explore("layouts", layouts(KK, 2), batch=40)
    ex.explore("receivers", places(), batch=40)
    ex.explore("chains of accesses", itertools.chain(*[chains(k) for k in range(1, 5 if deep else 4)]), batch=60)
    ex.explore("properties", props_(), batch=40)
    ex.explore("structs behind interfaces", structs(), batch=60)
    ex.explore("overloads", overloads(3 if deep else 2), batch=40)
    if deep:
        ex.explore("one method, chains of 5", one(5, "-pvonw"), batch=60)
        ex.explore("two methods, chains of 4", two(4, "-vo"), batch=60)
        ex.explore("three methods, chains of 3", three(3, "-vo"), batch=60)
        ex.explore("layouts of 3", layouts(["byte", "long", "double", "S3", "S12", "SR", "Rf"], 3), batch=40)

if __name__ == "__main__":
    main("C12", run, "explicit enumeration of all class and interface hierarchies up to the bound, every call by every static type on every dynamic type")
