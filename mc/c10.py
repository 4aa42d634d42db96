"""Storage: every variable, field and element of every layout keeps its own value while all others are written."""
from fw import *
import kinds
from kinds import T, val, show, default

K17 = ["sbyte", "byte", "short", "ushort", "int", "long", "ulong", "float", "double", "bool", "char", "En", "S1", "S3", "S12", "SN", "SR", "Rf", "obj", "string"]
MID = ["byte", "short", "int", "double", "bool", "char", "S1", "S3", "S12", "SR", "Rf"]
SMALL = ["byte", "short", "int", "long", "S3", "SR", "Rf"]

def writes(names, combo, first):
    """Statements writing each variable in every order of one rotation, showing all after each write."""
    n = len(combo)
    cur = [default(k) for k in combo]
    body, exp = [], []
    if not first:
        for nm, k, i in zip(names, combo, range(n)):
            body.append("%s = %s;" % (nm, val(k, 1)[0])); cur[i] = val(k, 1)[1]
    def showall():
        for nm, k, c in zip(names, combo, cur):
            if c is not None: body.append(show(k, nm)); exp.extend(c)
    showall()
    for i in list(range(n)) + list(range(n - 1, -1, -1)):
        v, l = val(combo[i], 0 if cur[i] != val(combo[i], 0)[1] else 1)
        body.append("%s = %s;" % (names[i], v)); cur[i] = l
        showall()
    return " ".join(body), exp

def fields(combo, pre="f"): return " ".join("public %s %s%d;" % (T(k), pre, i) for i, k in enumerate(combo))

def classes(combos, first):
    for combo in combos:
        b, e = writes(["o.f%d" % i for i in range(len(combo))], combo, first)
        yield Case("class %s%s" % (" ".join(combo), " fresh" if first else ""), "Y@ o = new Y@(); " + b, e, decls="public class Y@ { %s }" % fields(combo))

def derived(bases, ders):
    for a in bases:
        for b in ders:
            combo = a + b
            names = ["o.b%d" % i for i in range(len(a))] + ["o.f%d" % i for i in range(len(b))]
            w, e = writes(names, combo, True)
            yield Case("derived %s : %s" % (" ".join(b), " ".join(a)), "Y@ o = new Y@(); Z@ y = o; " + w, e,
                       decls="public class Z@ { %s } public class Y@ : Z@ { %s }" % (fields(a, "b"), fields(b)))

def derived3(ks):
    for a, b, c in itertools.product(ks, repeat=3):
        w, e = writes(["o.a0", "o.b0", "o.c0"], (a, b, c), True)
        yield Case("derived 3 levels %s %s %s" % (a, b, c), "Y@ o = new Y@(); " + w, e,
                   decls="public class X@ { %s } public class Z@ : X@ { %s } public class Y@ : Z@ { %s }" % (fields((a,), "a"), fields((b,), "b"), fields((c,), "c")))

def structs(combos, place):
    for combo in combos:
        n = len(combo)
        d = "public struct Y@ { %s }" % fields(combo)
        if place == "local":
            b, e = writes(["p"] + ["s.f%d" % i for i in range(n)] + ["q"], ("int",) + combo + ("byte",), False)
            body = "int p = 0; Y@ s = new Y@(); byte q = (byte)0; " + b
        elif place == "element":
            b, e = writes(["a[0].f%d" % i for i in range(n)] + ["a[1].f%d" % i for i in range(n)], combo + combo, True)
            body = "Y@[] a = new Y@[3]; " + b
        elif place == "field":
            b, e = writes(["o.p"] + ["o.s.f%d" % i for i in range(n)] + ["o.q"], ("byte",) + combo + ("short",), True)
            d += " public class H@ { public byte p; public Y@ s; public short q; }"
            body = "H@ o = new H@(); " + b
        elif place == "nested":
            b, e = writes(["o.p"] + ["o.s.f%d" % i for i in range(n)] + ["o.q"], ("byte",) + combo + ("byte",), False)
            d += " public struct H@ { public byte p; public Y@ s; public byte q; }"
            body = "H@ o = new H@(); " + b
        elif place == "whole":         # copied as a whole between locals, elements and fields
            d += " public class H@ { public byte p; public Y@ s; public short q; }"
            body = "H@ o = new H@(); o.p = (byte)201; o.q = (short)(-2); Y@[] a = new Y@[3]; Y@ x = new Y@(); Y@ y = new Y@(); " + " ".join("x.f%d = %s;" % (i, val(k, 0)[0]) for i, k in enumerate(combo))
            body += " " + " ".join("y.f%d = %s;" % (i, val(k, 1)[0]) for i, k in enumerate(combo)) + " a[0] = y; a[1] = x; a[2] = y; o.s = a[1]; y = o.s; x = a[0];"
            e = []
            for src, w in (("a[0]", 1), ("a[1]", 0), ("a[2]", 1), ("o.s", 0), ("y", 0), ("x", 1)):
                for i, k in enumerate(combo): body += " " + show(k, "%s.f%d" % (src, i)); e += val(k, w)[1]
            body += " Console.WriteLine(o.p); Console.WriteLine(o.q);"; e += ["201", "-2"]
        else:                          # this: written by its own method
            d = "public struct Y@ { %s public void Put(%s) { %s } public int R() { %s return 7; } }" % (fields(combo), ", ".join("%s p%d" % (T(k), i) for i, k in enumerate(combo)),
                 " ".join("f%d = p%d;" % (i, i) for i in range(n)), " ".join(show(k, "f%d" % i) for i, k in enumerate(combo)))
            body, e = "byte g = (byte)99; Y@ s = new Y@(); byte h = (byte)98;", []
            for r in (0, 1):
                body += " s.Put(%s); Console.WriteLine(s.R()); Console.WriteLine(g); Console.WriteLine(h);" % ", ".join(val(k, r)[0] for k in combo)
                e += [l for k in combo for l in val(k, r)[1]] + ["7", "99", "98"]
        yield Case("struct %s %s" % (place, " ".join(combo)), body, e, decls=d)

def arrays(lens):
    for k in K17 + ["uint", "arr"]:
        if k == "arr": continue
        for n in lens:
            b, e = writes(["a[%d]" % i for i in range(n)], (k,) * n, default(k) is not None)
            yield Case("array %s[%d]" % (k, n), "%s[] z = new %s[1]; %s[] a = new %s[%d]; %s[] y = new %s[1]; " % (T(k), T(k), T(k), T(k), n, T(k), T(k)) + b, e)
        for n, m in ((2, 3), (3, 2)):
            b, e = writes(["a[%d, %d]" % (i, j) for i in range(n) for j in range(m)], (k,) * (n * m), default(k) is not None)
            yield Case("array %s[%d,%d]" % (k, n, m), "%s[,] a = new %s[%d, %d]; " % (T(k), T(k), n, m) + b, e)

# ---- locals of nested and following blocks share stack space

def uniq(k, i):
    """The i-th of many distinct values of a kind."""
    return {"byte": ("(byte)%d" % (i + 1), [str(i + 1)]), "short": ("(short)(-%d)" % (i + 300), [str(-i - 300)]), "int": ("%d" % (i + 70000), [str(i + 70000)]),
            "long": ("%dL" % (i + 5000000000), [str(i + 5000000000)]), "Rf": ("new Rf(%d)" % i, [str(i)]), "S3": ("new S3((byte)%d, (short)%d, (sbyte)%d)" % (i + 1, i + 2, i + 3), [str(i + 1), str(i + 2), str(i + 3)]),
            "S12": ("new S12(%d, %dL)" % (i + 10, i + 20), [str(i + 10), str(i + 20)]), "SR": ("new SR(new Rf(%d), %s)" % (i, ("true", "false")[i & 1]), [str(i), ("True", "False")[i & 1]]),
            "double": ("%d.5" % i, ["%d.5" % i]), "bool": (("true", "false")[i & 1], [("True", "False")[i & 1]])}[k]

def shapes(decls, blocks, depth=3):
    """All token lists of 'D' and '{' '}' with that many of each."""
    out = []
    def go(cur, d, b, open_):
        if d == 0 and b == 0 and open_ == 0: out.append(tuple(cur)); return
        if d: go(cur + ["D"], d - 1, b, open_)
        if b and open_ < depth and (d or False): go(cur + ["{"], d, b - 1, open_ + 1)
        if open_ and cur[-1] != "{": go(cur + ["}"], d, b, open_ - 1)
    go([], decls, blocks, 0)
    return out

OPEN = ["{", "if (t) {", "for (int z%d = 0; z%d < 1; z%d++) {", "try {", "do {", "while (w%d) { w%d = false;"]
def blocks(shs, ks, opens):
    for sh in shs:
        nd = sh.count("D")
        for combo in itertools.product(ks, repeat=nd):
            for op in opens:
                body, exp, scope, i, stack, pre, nb = [], [], [[]], 0, [], "bool t = true;", 0
                def showall():
                    for fr in scope:
                        for nm, k, l in fr: body.append(show(k, nm)); exp.extend(l)
                it = iter(combo)
                for tk in sh:
                    if tk == "D":
                        k = next(it); v, l = uniq(k, i)
                        body.append("%s v%d = %s;" % (T(k), i, v)); scope[-1].append(("v%d" % i, k, l)); i += 1
                        showall()
                    elif tk == "{":
                        o = op
                        if "%d" in o:
                            if o[0] == "w": pre += " bool w%d = true;" % nb
                            o = o % ((nb,) * o.count("%d"))
                        nb += 1
                        body.append(o); scope.append([])
                    else:
                        body.append({"try {": "} finally { t = true; }", "do {": "} while (!t);"}.get(op, "}")); scope.pop(); showall()
                yield Case("blocks %s %s %s" % ("".join(sh), " ".join(combo), op.split()[0]), pre + " " + " ".join(body), exp)

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = kinds.DECLS
    P = itertools.product
    two, three = list(P(K17, repeat=2)), list(P(MID if deep else SMALL, repeat=3))
    ex.explore("class fields, fresh", classes(itertools.chain(P(K17, repeat=1), two, three), True), batch=60)
    ex.explore("class fields", classes(two if deep else list(P(MID, repeat=2)), False), batch=60)
    if deep: ex.explore("class fields of four", classes(P(SMALL, repeat=4), True), batch=60)
    ex.explore("base and derived fields", derived([(k,) for k in K17] + (list(P(SMALL, repeat=2)) if deep else []), [(k,) for k in (K17 if deep else MID)]), batch=60)
    ex.explore("base and derived fields, 2 and 1", derived(list(P(["byte", "long", "S3", "Rf"], repeat=2)), [(k,) for k in SMALL]), batch=60)
    ex.explore("three levels of fields", derived3(MID if deep else SMALL), batch=60)
    for pl in ("local", "element", "field", "nested", "whole", "this"):
        ex.explore("struct fields, " + pl, structs(itertools.chain(P(K17, repeat=1), two if deep else P(MID, repeat=2), P(SMALL, repeat=3) if deep or pl in ("element", "field", "whole") else ()), pl), batch=50)
    ex.explore("array elements", arrays((1, 2, 3, 4, 5) if deep else (1, 3)), batch=40)
    B4 = ["byte", "long", "Rf", "SR"]
    ex.explore("blocks, three locals", blocks([s for b in (1, 2, 3) for s in shapes(3, b)], B4 + ["int", "S3"], [OPEN[0]]), batch=120)
    ex.explore("blocks, four locals", blocks([s for b in (1, 2, 3) for s in shapes(4, b)], ["byte", "long", "Rf"] if not deep else B4, [OPEN[0]]), batch=120)
    ex.explore("blocks of statements", blocks([s for b in (1, 2) for s in shapes(3, b)], ["byte", "long", "SR"], OPEN[1:]), batch=120)
    if deep: ex.explore("blocks, five locals", blocks([s for b in (2, 3, 4) for s in shapes(5, b)], ["byte", "long", "Rf"], [OPEN[0]]), batch=120)

if __name__ == "__main__":
    main("C10", run, "explicit enumeration of all layouts of fields, elements and block-scoped locals up to a bound, each written in all positions, against a reference store")
