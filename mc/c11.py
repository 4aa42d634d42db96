"""Value and reference semantics: all histories of copies and writes on structs, objects, arrays and boxes, against a heap model."""
from fw import *
import copy

DECLS = """
public class R { public int v; public R(int p) { v = p; } }
public struct S { public int a; public R r; public byte b;
  public S(int p, int q, byte z) { a = p; r = new R(q); b = z; }
  public void Inc(int k) { a = a + k; r.v = r.v + k; b = (byte)(b + 1); }
  public S Copy() { S z = new S(a, r.v, b); return z; }
  public int Sum() { return a * 10000 + r.v * 100 + b; } }
public class C { public S s; public int n; public C next;
  public C(int k) { s = new S(k, k + 1, (byte)(k + 2)); n = k; }
  public S P { get { return s; } set { s = value; } }
  public void Put(S x) { s = x; } public S Take() { return s; } }
public struct D { public S s; public long q; public S t; }
public class X {
  public static void Val(S x) { x.a = 77; x.r.v = x.r.v + 1; x.b = (byte)66; }
  public static void Rep(S x) { x = new S(1, 2, (byte)3); }
  public static void Ref(ref S x) { x.a = x.a + 5; x.b = (byte)55; }
  public static void RefRep(ref S x, S y) { x = y; x.a = x.a + 1; y.a = 44; }
  public static void Swap(ref S x, ref S y) { S z = x; x = y; y = z; }
  public static S Id(S x) { return x; }
  public static S Mod(S x) { x.a = x.a + 3; return x; }
  public static void Obj(C x) { x.n = x.n + 9; x = new C(8); x.n = 1; }
  public static void ObjRef(ref C x) { x = new C(7); }
  public static int D(S x) { return x.Sum(); }
  public static void Show(S x) { Console.WriteLine(x.a * 1000000 + x.r.v * 1000 + x.b); }
  public static void ShowC(C x) { Show(x.s); Console.WriteLine(x.n); }
}
"""
# ---- the model: structs are python lists copied on assignment, objects are python objects
class R:
    def __init__(s, v): s.v = v
class S:
    def __init__(s, a, r, b): s.a, s.r, s.b = a, r, b
    def cp(s): return S(s.a, s.r, s.b)
class C:
    def __init__(s, k): s.s, s.n = S(k, R(k + 1), k + 2), k
class St: pass

def start():
    m = St()
    m.s, m.t = S(1, R(2), 3), S(4, R(5), 6)
    m.o, m.p = C(11), C(14)
    m.A = [S(21, R(22), 23), S(24, R(25), 26)]
    m.B = [C(31), C(34)]
    m.ds, m.dt, m.dq = S(41, R(42), 43), S(44, R(45), 46), 9
    m.x = S(51, R(52), 53)
    return m
INIT = """S s = new S(1, 2, (byte)3); S t = new S(4, 5, (byte)6); C o = new C(11); C p = new C(14); S[] A = new S[2]; A[0] = new S(21, 22, (byte)23); A[1] = new S(24, 25, (byte)26);
C[] B = new C[2]; B[0] = new C(31); B[1] = new C(34); D d = new D(); d.s = new S(41, 42, (byte)43); d.t = new S(44, 45, (byte)46); d.q = 9L; object x = (object)(new S(51, 52, (byte)53)); """
SHOW = " X.Show(s); X.Show(t); X.ShowC(o); X.ShowC(p); X.Show(A[0]); X.Show(A[1]); X.ShowC(B[0]); X.ShowC(B[1]); X.Show(d.s); X.Show(d.t); Console.WriteLine(d.q); X.Show((S)x);"
def state(m):
    f = lambda s: str(s.a * 1000000 + s.r.v * 1000 + s.b)
    g = lambda c: [f(c.s), str(c.n)]
    return [f(m.s), f(m.t)] + g(m.o) + g(m.p) + [f(m.A[0]), f(m.A[1])] + g(m.B[0]) + g(m.B[1]) + [f(m.ds), f(m.dt), str(m.dq), f(m.x)]

def op(code): return lambda fn: OPS.append((code, fn)) or fn
OPS = []
def add(code, fn): OPS.append((code, fn))
def setattr_(o, n, v): setattr(o, n, v)
PL = {"s": (lambda m: m.s, lambda m, v: setattr(m, "s", v)), "t": (lambda m: m.t, lambda m, v: setattr(m, "t", v)),
      "o.s": (lambda m: m.o.s, lambda m, v: setattr(m.o, "s", v)), "p.s": (lambda m: m.p.s, lambda m, v: setattr(m.p, "s", v)),
      "A[0]": (lambda m: m.A[0], lambda m, v: m.A.__setitem__(0, v)), "A[1]": (lambda m: m.A[1], lambda m, v: m.A.__setitem__(1, v)),
      "B[1].s": (lambda m: m.B[1].s, lambda m, v: setattr(m.B[1], "s", v)), "d.s": (lambda m: m.ds, lambda m, v: setattr(m, "ds", v)), "d.t": (lambda m: m.dt, lambda m, v: setattr(m, "dt", v))}
def copy_(dst, src): add("%s = %s;" % (dst, src), lambda m: PL[dst][1](m, PL[src][0](m).cp()))
def wa(pl, k):
    def f(m): PL[pl][0](m).a = k
    add("%s.a = %d;" % (pl, k), f)
def wr(pl, k):
    def f(m): PL[pl][0](m).r.v = k
    add("%s.r.v = %d;" % (pl, k), f)
def wb(pl, k):
    def f(m): PL[pl][0](m).b = k
    add("%s.b = (byte)%d;" % (pl, k), f)

for a, b in (("s", "t"), ("t", "s"), ("s", "o.s"), ("o.s", "s"), ("A[0]", "t"), ("s", "A[0]"), ("A[1]", "A[0]"), ("p.s", "o.s"), ("d.s", "s"), ("t", "d.t"), ("d.t", "d.s"), ("B[1].s", "A[1]"), ("A[0]", "B[1].s")): copy_(a, b)
for i, pl in enumerate(("s", "t", "o.s", "A[0]", "B[1].s", "d.s", "d.t")): wa(pl, 60 + i)
for i, pl in enumerate(("t", "p.s", "A[1]")): wr(pl, 70 + i)
for i, pl in enumerate(("s", "A[0]", "d.s")): wb(pl, 80 + i)
def f(m): m.o = m.p
add("o = p;", f)
def f(m): m.p = m.o
add("p = o;", f)
def f(m): m.B[0] = m.o
add("B[0] = o;", f)
def f(m): m.p = m.B[0]
add("p = B[0];", f)
def f(m): m.o.n = 90
add("o.n = 90;", f)
def f(m): m.x = m.s.cp()
add("x = (object)s;", f)
def f(m): m.s = m.x.cp()
add("s = (S)x;", f)
def f(m): m.t.r.v += 1
add("X.Val(t);", f)
def f(m): pass
add("X.Rep(s);", f)
def f(m): m.s.a += 5; m.s.b = 55
add("X.Ref(ref s);", f)
def f(m): m.t = m.s.cp(); m.t.a += 1
add("X.RefRep(ref t, s);", f)
def f(m): m.s, m.t = m.t, m.s
add("X.Swap(ref s, ref t);", f)
def f(m): m.s = m.t.cp()
add("s = X.Id(t);", f)
def f(m): m.o.s = m.s.cp(); m.o.s.a += 3
add("o.s = X.Mod(s);", f)
def f(m): m.p.n += 9
add("X.Obj(p);", f)
def f(m): m.o = C(7)
add("X.ObjRef(ref o);", f)
def f(m): m.s.a += 2; m.s.r.v += 2; m.s.b += 1
add("s.Inc(2);", f)
def f(m): m.o.s.a += 4; m.o.s.r.v += 4; m.o.s.b += 1
add("o.s.Inc(4);", f)
def f(m): m.A[1].a += 6; m.A[1].r.v += 6; m.A[1].b += 1
add("A[1].Inc(6);", f)
def f(m): m.t = S(m.A[0].a, R(m.A[0].r.v), m.A[0].b)
add("t = A[0].Copy();", f)
def f(m): m.t = m.p.s.cp()
add("t = p.P;", f)
def f(m): m.p.s = m.s.cp()
add("p.P = s;", f)
def f(m): m.o.s = m.t.cp()
add("o.Put(t);", f)
def f(m): m.s = m.o.s.cp()
add("s = o.Take();", f)
def f(m): m.s = S(61, R(62), 63)
add("s = new S(61, 62, (byte)63);", f)
def f(m): m.A[0] = S(64, R(65), 66)
add("A[0] = new S(64, 65, (byte)66);", f)
BY = dict(OPS)

def history(codes):
    m = start()
    for c in codes: BY[c](m)
    return Case(" ".join(codes), INIT + " ".join(codes) + SHOW, state(m), steps=len(codes) + 16)

def histories(n, codes):
    for h in itertools.product(codes, repeat=n): yield history(h)

CORE = ["s = t;", "t = s;", "o.s = s;", "s = o.s;", "A[0] = t;", "s = A[0];", "s.a = 60;", "o.s.a = 62;", "A[0].a = 63;", "o = p;", "x = (object)s;", "s = (S)x;"]
MORE = CORE + ["d.s = s;", "t = d.t;", "t.r.v = 70;", "p = o;", "B[0] = o;", "X.Swap(ref s, ref t);", "s.Inc(2);", "A[1].Inc(6);", "o.s = X.Mod(s);", "X.RefRep(ref t, s);"]

# ---- structs of every size, copied between places of every kind
PLACES = ["p", "q", "r", "h.a", "h.b", "h.c", "a[0]", "a[1]", "a[2]", "w.m", "w.n"]
MIX = {"byte": ["byte"], "short": ["short"], "int": ["int"], "long": ["long"], "mix": ["byte", "long", "short", "int"], "double": ["double", "byte"]}
def sized(mix, n):
    """The declarations of a struct of n fields, a class and a struct around it."""
    ts = [MIX[mix][i % len(MIX[mix])] for i in range(n)]
    z = "Z" + mix + str(n)
    put = " ".join("f%d = (%s)(k + %d);" % (i, t, i) for i, t in enumerate(ts))
    chk = " ".join("if ((int)f%d != k + %d) bad++;" % (i, i) for i in range(n))
    return """public struct %s { %s public void Put(int k) { %s } public int Bad(int k) { int bad = 0; %s return bad; } }
public struct W%s { public byte x; public %s m; public %s n; public byte y; }
public class H%s { public byte x; public %s a; public %s b; public %s c; public byte y; }
public class F%s { public static %s Id(%s v) { return v; } public static void Set(ref %s x, %s v) { x = v; } public static void Clobber(%s v) { v.Put(99); } }
""" % (z, " ".join("public %s f%d;" % (t, i) for i, t in enumerate(ts)), put, chk, z, z, z, z, z, z, z, z, z, z, z, z, z)
def size_case(mix, n, via):
    z = "Z" + mix + str(n)
    out, exp = [], []
    pre = "%s p = new %s(); %s q = new %s(); %s r = new %s(); H%s h = new H%s(); %s[] a = new %s[3]; W%s w = new W%s(); h.x = (byte)201; h.y = (byte)202; w.x = (byte)203; w.y = (byte)204; " % ((z,) * 12)
    for i, d in enumerate(PLACES):
        for j, s in enumerate(PLACES):
            if via and (i + 3 * j) % 5: continue
            if via == 5 and d not in ("p", "q", "r"): continue
            fill = " ".join("%s.Put(%d);" % (x, 4 * k + 1) for k, x in enumerate(PLACES))
            v = {0: "%s = %s;" % (d, s), 1: "object o = (object)%s; %s.Put(99); %s = (%s)o; %s" % (s, s, d, z, "" if d == s else "%s.Put(%d);" % (s, 4 * j + 1)), 2: "%s = F%s.Id(%s);" % (d, z, s),
                 3: "F%s.Clobber(%s); %s = F%s.Id(%s);" % (z, s, d, z, s), 4: "%s t = %s; %s = t; t.Put(88);" % (z, s, d), 5: "F%s.Set(ref %s, %s);" % (z, d, s)}[via]
            chk = " + ".join("%s.Bad(%d)" % (x, 4 * (j if x == d else k) + 1) for k, x in enumerate(PLACES))
            out.append("{ %s %s int bad = %s; if (bad != 0) { Console.Write(\"%s\"); Console.WriteLine(bad); } }" % (fill, v, chk, d + " from " + s + " "))
    out.append("Console.WriteLine(h.x); Console.WriteLine(h.y); Console.WriteLine(w.x); Console.WriteLine(w.y);")
    return Case("size %s %d via %d" % (mix, n, via), pre + " ".join(out), ["201", "202", "203", "204"], steps=len(out) * 12)

# ---- assignments used as values, for every kind of value
import kinds
AT = ["l", "m", "pv", "rv", "h.f", "w.f", "a[1]", "H@.Next(h).f"]
AS = ["n", "h.g", "w.g", "a[0]", "H@.Id(n)"]
AU = {"assign": "{t} = {e};", "init": "{T} u = {e}; {t} = u;", "argument": "{t} = H@.Id({e});", "ref": "H@.Set(out {t}, {e});", "box": "object u = {e}; {t} = ({T})u;", "returned": "{t} = H@.Ret({e}, {t});", "condition": "bool q = true; {t} = q ? ({e}) : {t};", "element": "{T}[] u = new {T}[2]; u[1] = {e}; {t} = u[1];", "statement": "{e}; {t} = {x};"}
def chained(ks, deep):
    for k in ks:
        ty = kinds.T(k)
        dec = "public class H@ { public byte b0; public %s f; public byte b1; public %s g; public byte b2; public static %s Id(%s v) { return v; } public static %s Ret(%s v, %s o) { return o = v; } public static H@ Next(H@ h) { h.b0 = (byte)(h.b0 + 1); return h; } public static void Set(out %s t, %s v) { t = v; } } public struct W@ { public byte b0; public %s f; public byte b1; public %s g; }" % ((ty,) * 11)
        v, l = kinds.val(k, 0)
        w, lw = kinds.val(k, 1)
        for (un, u), x, s in itertools.product(AU.items(), AT, AS):
            if un == "ref" and x != "pv" and not deep: continue
            if un == "box" and (k == "En" or ty == "object"): continue
            for t in (["l", "m", "h.f", "a[1]"] if un in ("assign", "statement") else ["m"]):
                if t == x or un == "ref" and t in ("h.f", "a[1]") : continue
                body = u.format(t=t, e="%s = %s" % (x, s), T=ty, x=x.replace("H@.Next(h)", "h"))
                mem = "static void Go@(%s pv, ref %s rv) { %s l = %s; %s m = %s; %s n = %s; H@ h = new H@(); h.g = %s; W@ w = new W@(); w.g = %s; %s[] a = new %s[2]; a[0] = %s; h.b1 = (byte)7; w.b1 = (byte)8; %s %s }" % (ty, ty, ty, w, ty, w, ty, v, v, v, ty, ty, v, body, " ".join(kinds.show(k, e) for e in (t, x.replace("H@.Next(h)", "h"), s.replace("H@.Id(n)", "n"), "m")) + " Console.WriteLine(h.b0); Console.WriteLine(h.b1); Console.WriteLine(w.b1);")
                nx = str(1 if "Next" in x else 0)
                yield Case("chained %s %s %s %s = %s" % (k, un, t, x, s), "%s p = %s; %s r = %s; Go@(p, ref r); %s %s" % (ty, w, ty, w, kinds.show(k, "p"), kinds.show(k, "r")), l * 3 + (l if "m" in (t, x) else lw) + [nx, "7", "8"] + lw + (l if "rv" in (t, x) else lw), mem, dec)

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = DECLS
    allc = [c for c, _ in OPS]
    ex.explore("all histories of 2", itertools.chain(histories(1, allc), histories(2, allc)), batch=120)
    ex.explore("histories of 3", histories(3, allc if deep else MORE), batch=120)
    ex.explore("histories of 4", histories(4, MORE if deep else CORE[:10]), batch=120)
    for mix, top in (("byte", 41), ("short", 21), ("int", 12), ("long", 6), ("mix", 14), ("double", 10)):
        ns = list(range(1, 2 * top if deep else top))
        for part in [ns[i:i + 10] for i in range(0, len(ns), 10)]:
            ex.extra = "".join(sized(mix, n) for n in part)
            ex.explore("sizes", [size_case(mix, n, via) for n in part for via in range(6)], opts=(0, 1, 2) if deep else (0, 2), batch=6)
    ex.extra = kinds.DECLS
    ex.explore("assignments as values", chained(list(kinds.KINDS) if deep else ["S1", "S3", "SN", "SR", "Rf", "byte", "long", "double", "En", "string"], deep), opts=(0, 2), batch=30)
    ex.extra = DECLS
    if deep: ex.explore("histories of 5", histories(5, CORE[:9]), batch=120)

if __name__ == "__main__":
    main("C11", run, "explicit enumeration of all operation histories up to a depth on structs, objects, arrays and boxes, against a heap model")
