"""Numeric conversions."""
from fw import *
from num import *
from forms import *
from c01 import split

def implicit(a, b):
    """Whether a converts to b without a cast."""
    if a == b: return True
    if a in INTS and b in INTS:
        return INTS[a][1] == INTS[b][1] and INTS[a][0] < INTS[b][0]
    if b in FLOATS and a in INTS: return INTS[a][1]
    return (a, b) == ("float", "double")

def pairs(a, b):
    out = [(v, convert(v, a, b)) for v in values_of(a)]
    return [(v, r) for v, r in out if r is not None]

def loop(T, vs):
    return "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (T, array(T, vs), len(vs))

def explicit(form, types=NTYPES):
    for a in NTYPES:
        for b in types:
            ps = pairs(a, b)
            m, s, x = operand(form, a, "p", "a")
            fn = "static void F@(%s p) { %s Console.WriteLine((%s)%s); }" % (a, s, b, x)
            mem, dec = split([m, fn])
            yield Case("(%s)%s in %s" % (b, a, form), loop(a, [v for v, _ in ps]), [show(r, b) for _, r in ps], mem, dec)

def exact(form):
    """Integers to floating types and back: the exact value, not only the printed digits."""
    for a in ITYPES:
        for b in FLOATS:
            vs, exp = [], []
            for v in values_of(a):
                r = convert(v, a, b)
                back = convert(r, b, "long")
                if back is not None:
                    vs.append(v); exp.append(str(back))
            m, s, x = operand(form, a, "p", "a")
            fn = "static void F@(%s p) { %s %s d = (%s)%s; Console.WriteLine((long)d); }" % (a, s, b, b, x)
            mem, dec = split([m, fn])
            yield Case("(long)(%s)%s in %s" % (b, a, form), loop(a, vs), exp, mem, dec)

def chains(types):
    """Two conversions in a row."""
    for a in NTYPES:
        for b in types:
            for c in NTYPES:
                vs, exp = [], []
                for v, r in pairs(a, b):
                    q = convert(r, b, c)
                    if q is not None:
                        vs.append(v); exp.append(show(q, c))
                fn = "static void F@(%s p) { Console.WriteLine((%s)(%s)p); }" % (a, c, b)
                yield Case("(%s)(%s)%s" % (c, b, a), loop(a, vs), exp, fn)

CONTEXTS = {
    "initialised local": ("", "{b} x = {e}; Console.WriteLine(x);"),
    "assigned local": ("", "{b} x; x = {e}; Console.WriteLine(x);"),
    "argument": ("static void G@({b} x) {{ Console.WriteLine(x); }}", "G@({e});"),
    "second argument": ("static void G@(int u, {b} x, int w) {{ Console.WriteLine(u); Console.WriteLine(x); Console.WriteLine(w); }}", "G@(1, {e}, 2);"),
    "return": ("static {b} G@({a} p) {{ {s} return {e}; }}", "Console.WriteLine(G@(p));"),
    "field": ("class X@ {{ public int u; public {b} f; public int w; }}", "X@ o = new X@(); o.f = {e}; Console.WriteLine(o.u); Console.WriteLine(o.f); Console.WriteLine(o.w);"),
    "struct field": ("struct X@ {{ public int u; public {b} f; public int w; }}", "X@ o = new X@(); o.f = {e}; Console.WriteLine(o.u); Console.WriteLine(o.f); Console.WriteLine(o.w);"),
    "element": ("", "{b}[] o = new {b}[3]; o[1] = {e}; Console.WriteLine((int)o[0]); Console.WriteLine(o[1]); Console.WriteLine((int)o[2]);"),
    "matrix element": ("", "{b}[,] o = new {b}[2,2]; o[0,1] = {e}; Console.WriteLine((int)o[0,0]); Console.WriteLine(o[0,1]); Console.WriteLine((int)o[1,0]);"),
    "constructor argument": ("class X@ {{ public {b} f; public X@({b} v) {{ f = v; }} }}", "X@ o = new X@({e}); Console.WriteLine(o.f);"),
    "instance call argument": ("class X@ {{ public void G({b} v) {{ Console.WriteLine(v); }} }}", "X@ o = new X@(); o.G({e});"),
    "property": ("class X@ {{ {b} _f; public {b} F {{ get {{ return _f; }} set {{ _f = value; }} }} }}", "X@ o = new X@(); o.F = {e}; Console.WriteLine(o.F);"),
    "own field": ("class X@ {{ public {b} f; public void S({a} p) {{ {s} f = {e}; }} }}", "X@ o = new X@(); o.S(p); Console.WriteLine(o.f);"),
    "choice": ("", "bool c = true; {b} x = c? {e} : {e}; Console.WriteLine(x);"),
    "ref argument": ("static void G@(ref {b} x, {a} p) {{ {s} x = {e}; }}", "{b} y = new {b}[1][0]; G@(ref y, p); Console.WriteLine(y);"),
    "out argument": ("static void G@(out {b} x, {a} p) {{ {s} x = {e}; }}", "{b} y; G@(out y, p); Console.WriteLine(y);"),
}

def contexts(form, ctxs, same=False):
    for name in ctxs:
        mt, bt = CONTEXTS[name]
        for a in NTYPES:
            for b in NTYPES:
                if not implicit(a, b) or (a == b) != same: continue
                if name == "own field" and form == "call": continue
                if name == "ref argument": bt = "{b}[] z = new {b}[1]; {b} y = z[0]; G@(ref y, p); Console.WriteLine(y);"
                ps = pairs(a, b)
                m, s, x = operand(form, a, "p", "a")
                inner = "{s}" in mt
                k = dict(a=a, b=b, e=x, s=s)
                fn = "static void F@(%s p) { %s %s }" % (a, "" if inner else s, bt.format(**k))
                mem, dec = split([m, mt.format(**k), fn])
                exp = []
                for _, r in ps:
                    if name == "second argument": exp += ["1", show(r, b), "2"]
                    elif name in ("field", "struct field", "element", "matrix element"): exp += ["0", show(r, b), "0"]
                    else: exp.append(show(r, b))
                yield Case("%s to %s: %s from %s" % (a, b, name, form), loop(a, [v for v, _ in ps]), exp, mem, dec)

def literals():
    """Conversions of literals and constants, cast or not."""
    for a in NTYPES:
        for b in NTYPES:
            body, exp = [], []
            for n, (v, r) in enumerate(pairs(a, b)):
                l = literal(v, a)
                body.append("Console.WriteLine((%s)%s);" % (b, l)); exp.append(show(r, b))
                if implicit(a, b):
                    body.append("%s x%d = %s; Console.WriteLine(x%d);" % (b, n, l, n)); exp.append(show(r, b))
                    body.append("G@(%s);" % l); exp.append(show(r, b))
            yield Case("literal %s to %s" % (a, b), "\n".join(body), exp, "static void G@(%s x) { Console.WriteLine(x); }" % b)
    for a in NTYPES:
        for b in NTYPES:
            if not implicit(a, b): continue
            body, exp = [], []
            for n, (v, r) in enumerate(pairs(a, b)[:6]):
                body.append("const %s c%d = %s; %s y%d = c%d; Console.WriteLine(y%d); Console.WriteLine((%s)c%d);" % (a, n, literal(v, a), b, n, n, n, b, n))
                exp += [show(r, b)] * 2
            yield Case("constant %s to %s" % (a, b), "\n".join(body), exp)

def charconv(form):
    chars = [0x20, 0x41, 0x7a, 0x7e, 0x30]
    for b in ITYPES:
        m, s, x = operand(form, "char", "p", "a")
        fn = "static void F@(char p) { %s Console.WriteLine((%s)%s); }" % (s, b, x)
        mem, dec = split([m, fn])
        yield Case("(%s)char in %s" % (b, form), "char[] A = new char[]{%s}; for (int i = 0; i < %d; i++) F@(A[i]);" % (
            ", ".join("'%s'" % chr(c) for c in chars), len(chars)), [str(wrap(c, b)) for c in chars], mem, dec)
        m, s, x = operand(form, b, "p", "a")
        fn = "static void F@(%s p) { %s Console.WriteLine((int)(char)%s); char c = (char)%s; Console.WriteLine((int)c); }" % (b, s, x, x)
        mem, dec = split([m, fn])
        vs = [v for v in values_of(b) if 0 <= v <= 0xffff]
        yield Case("(char)%s in %s" % (b, form), loop(b, vs), [str(v) for v in vs for _ in (0, 1)], mem, dec)

def run(ex, tier):
    deep = tier == "thorough"
    ch = itertools.chain.from_iterable
    ex.explore("casts", ch(explicit(f) for f in FORMS), batch=60)
    ex.explore("exact values", ch(exact(f) for f in (FORMS if deep else ["param", "local", "field"])), batch=60)
    ex.explore("casts in a row", chains(NTYPES if deep else ["sbyte", "byte", "ushort", "int", "uint", "long", "float", "double"]), batch=60)
    ex.explore("implicit", ch(contexts(f, CONTEXTS) for f in (FORMS if deep else ["param", "local", "field", "call"])), batch=60)
    ex.explore("implicit, same type", ch(contexts(f, CONTEXTS, True) for f in (FORMS if deep else ["local", "elem"])), batch=60)
    ex.explore("literals", literals(), batch=60)
    ex.explore("characters", ch(charconv(f) for f in FORMS), batch=60)

if __name__ == "__main__":
    main("C05", run, "explicit enumeration of conversions x contexts x operand places x boundary values against a reference model of the numeric types")
