"""Grouping and evaluation order of expressions."""
from fw import *
from num import wrap, tdiv

PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, "<=": 7, ">": 7, ">=": 7, "==": 6, "!=": 6,
        "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1, "?": 0}
IOPS = ["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|"]
ROPS = ["<", "<=", ">", ">=", "==", "!="]
LOPS = ["&&", "||"]

class Bad(Exception):
    pass

def ev(e, env):
    k = e[0]
    if k == "v": return env[e[1]]
    if k == "u":
        x = ev(e[2], env)
        return {"-": lambda: wrap(-x, "int"), "~": lambda: wrap(~x, "int"), "!": lambda: not x}[e[1]]()
    if k == "?":
        return ev(e[2], env) if ev(e[1], env) else ev(e[3], env)
    op, l, r = e[1], e[2], e[3]
    x = ev(l, env)
    if op == "&&": return x and ev(r, env)
    if op == "||": return x or ev(r, env)
    y = ev(r, env)
    if op in ("/", "%"):
        if y == 0 or (y == -1 and x == -2**31): raise Bad
        v = tdiv(x, y) if op == "/" else x - y * tdiv(x, y)
    elif op in ("<<", ">>"):
        if not 0 <= y < 32: raise Bad
        v = x << y if op == "<<" else x >> y
    elif op in ROPS:
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
    else:
        v = {"*": lambda: x * y, "+": lambda: x + y, "-": lambda: x - y, "&": lambda: x & y, "^": lambda: x ^ y, "|": lambda: x | y}[op]()
    return wrap(v, "int")

def prec(e):
    if e[0] == "v": return 20
    if e[0] == "u": return 15
    if e[0] == "?": return 0
    return PREC[e[1]]

def text(e, full):
    """As few parentheses as the grammar needs, or all."""
    k = e[0]
    if k == "v": return e[1]
    def sub(x, least):
        t = text(x, full)
        return t if x[0] == "v" or (not full and prec(x) >= least) else "(%s)" % t
    if k == "u":
        return e[1] + sub(e[2], 16)
    if k == "?":
        return "%s ? %s : %s" % (sub(e[1], 1), sub(e[2], 1), sub(e[3], 0))
    p = PREC[e[1]]
    return "%s %s %s" % (sub(e[2], p), e[1], sub(e[3], p + 1))

def trees(n, t, iops, rops, lops, cond, unary):
    """All trees of type t with n operators; leaves are numbered later."""
    if n == 0:
        yield ("v", "I" if t == "i" else "B")
        return
    for i in range(n):
        for op in (iops if t == "i" else []):
            for l in trees(i, "i", iops, rops, lops, cond, unary):
                for r in trees(n - 1 - i, "i", iops, rops, lops, cond, unary):
                    yield ("b", op, l, r)
        if t == "b":
            for op in rops:
                for l in trees(i, "i", iops, rops, lops, cond, unary):
                    for r in trees(n - 1 - i, "i", iops, rops, lops, cond, unary):
                        yield ("b", op, l, r)
            for op in lops + [o for o in rops if o in ("==", "!=")]:
                for l in trees(i, "b", iops, rops, lops, cond, unary):
                    for r in trees(n - 1 - i, "b", iops, rops, lops, cond, unary):
                        yield ("b", op, l, r)
    if cond:
        for i in range(n):
            for j in range(n - i):
                for c in trees(i, "b", iops, rops, lops, cond, unary):
                    for x in trees(j, t, iops, rops, lops, cond, unary):
                        for y in trees(n - 1 - i - j, t, iops, rops, lops, cond, unary):
                            yield ("?", c, x, y)
    if unary:
        for op in (["-", "~"] if t == "i" else ["!"]):
            for x in trees(n - 1, t, iops, rops, lops, cond, unary):
                if x[0] != "u": yield ("u", op, x)

def number(e, it, bt):
    if e[0] == "v": return ("v", next(it) if e[1] == "I" else next(bt))
    return tuple(number(x, it, bt) if isinstance(x, tuple) else x for x in e)

def leaves(e):
    if e[0] == "v": return [e[1]]
    return [v for x in e if isinstance(x, tuple) for v in leaves(x)]

ITUPLES = [(17, 5, 3, 2, 1), (-29, 4, 2, 3, 7), (6, -7, 2, 1, 3), (100, 3, 7, 5, 2), (1, 1, 0, 1, 0), (0, 2, 2, 9, 4), (2147483647, 2, 1, 30, 1), (-5, 3, -4, 2, 6)]
BTUPLES = [(True, False, True, False, True), (False, True, False, False, True), (True, True, False, True, False), (False, False, True, True, True)]

def group(gen, full):
    for t, raw in gen:
        e = number(raw, iter("abcde"), iter("pqrsw"))
        ls = sorted(set(leaves(e)))
        iv = [x for x in ls if x in "abcde"]
        bv = [x for x in ls if x in "pqrsw"]
        calls, exp = [], []
        for i, I in enumerate(ITUPLES if iv else ITUPLES[:1]):
            for B in (BTUPLES if bv else BTUPLES[:1]):
                env = dict(zip("abcde", I)); env.update(zip("pqrsw", B))
                try:
                    v = ev(e, env)
                except Bad:
                    continue
                calls.append("F@(%s);" % ", ".join([str(env[x]) for x in iv] + [str(env[x]).lower() for x in bv]))
                exp.append(str(v))
        if not calls: continue
        s = text(e, full)
        params = ", ".join(["int " + x for x in iv] + ["bool " + x for x in bv])
        yield Case(s, " ".join(calls), exp, "static void F@(%s) { Console.WriteLine(%s); }" % (params, s))

def both(n, iops, rops, lops, cond, unary):
    for t in "ib":
        for e in trees(n, t, iops, rops, lops, cond, unary):
            yield t, e

# ------------------------------------------------------------ evaluation order

def T(k, v): return "T(%d, %s)" % (k, v)

def traced(gen):
    """Every leaf announces itself; && || and ?: skip what does not count."""
    for t, raw in gen:
        n = itertools.count()
        vals = {}
        def leafs(e):
            if e[0] == "v":
                k = next(n)
                return ("t", k, e[1])
            return tuple(leafs(x) if isinstance(x, tuple) else x for x in e)
        e = leafs(raw)
        nl = next(n)
        def txt(e):
            if e[0] == "t": return "%s(%d)" % ("TI" if e[2] == "I" else "TB", e[1])
            if e[0] == "u": return "%s(%s)" % (e[1], txt(e[2]))
            if e[0] == "?": return "((%s) ? %s : %s)" % (txt(e[1]), txt(e[2]), txt(e[3]))
            return "(%s %s %s)" % (txt(e[2]), e[1], txt(e[3]))
        body, exp = [], []
        for bits in itertools.product((0, 1), repeat=min(nl, 4)):
            bits = bits + (1,) * (nl - len(bits))
            tr = []
            def run(e):
                if e[0] == "t":
                    tr.append(str(e[1]))
                    return bool(bits[e[1]]) if e[2] == "B" else bits[e[1]] + e[1] + 1
                if e[0] == "?": return run(e[2]) if run(e[1]) else run(e[3])
                if e[0] == "u":
                    return ev(("u", e[1], ("v", "x")), {"x": run(e[2])})
                if e[1] in LOPS:
                    x = run(e[2])
                    return run(e[3]) if x == (e[1] == "&&") else x
                x = run(e[2]); y = run(e[3])
                return ev(("b", e[1], ("v", "x"), ("v", "y")), {"x": x, "y": y})
            try:
                v = run(e)
            except Bad:
                continue
            mask = sum(b << i for i, b in enumerate(bits))
            body.append("o.m = %d; o.F();" % mask)
            exp += tr + [str(v)]
        if not body: continue
        s = txt(e)
        yield Case("order " + s, "X@ o = new X@(); " + " ".join(body), exp, "",
                   "class X@ { public int m; int TI(int k) { Console.WriteLine(k); return ((m >> k) & 1) + k + 1; } bool TB(int k) { Console.WriteLine(k); return ((m >> k) & 1) != 0; }"
                   " public void F() { Console.WriteLine(%s); } }" % s)

def arguments(maxn):
    """Arguments are evaluated from left to right, each once, whatever they are."""
    kinds = ["T(%d)", "T(%d) + 1", "(long)T(%d)", "S(T(%d), 1)", "T(%d) > 0 ? T(%d0) : 0", "a[T(%d) - %d]"]
    def val(i, k):
        return [i, i + 1, i, i + 1, i * 10, 100 + 0][k]
    def trace(i, k):
        return [str(i)] + ([str(i * 10)] if k == 4 else [])
    for n in range(1, maxn + 1):
        for ks in itertools.product(range(len(kinds)), repeat=n):
            args, exp, vs = [], [], []
            for i, k in enumerate(ks, 1):
                kd = kinds[k]
                args.append(kd % ((i,) * kd.count("%d")))
                exp += trace(i, k); vs.append(val(i, k))
            tps = ["long" if k == 2 else "int" for k in ks]
            ps = ", ".join("%s p%d" % (t, i) for i, t in enumerate(tps))
            pr = " ".join("Console.WriteLine(p%d);" % i for i in range(n))
            base = "static int T(int k) { Console.WriteLine(k); return k; } static int S(int x, int y) { return x + y; } "
            al = ", ".join(args)
            for form in ("static", "instance", "constructor", "delegate", "virtual"):
                if form == "delegate" and n > 2: continue
                e2 = exp + [str(v) for v in vs]
                arr = "int[] a = new int[2]; a[0] = 100; a[1] = 101; "
                if form == "static":
                    d = "class X@ { %s static void G(%s) { %s } public static void F() { %s G(%s); } }" % (base, ps, pr, arr, al)
                elif form == "instance":
                    d = "class X@ { %s void G(%s) { %s } public static void F() { %s X@ x = new X@(); x.G(%s); } }" % (base, ps, pr, arr, al)
                elif form == "virtual":
                    d = "class X@ { %s public virtual void G(%s) { } public static void F() { %s X@ x = new Y@(); x.G(%s); } } class Y@ : X@ { public override void G(%s) { %s } }" % (base, ps, arr, al, ps, pr)
                elif form == "constructor":
                    d = "class X@ { %s public X@(%s) { %s } public static void F() { %s X@ x = new X@(%s); } }" % (base, ps, pr, arr, al)
                else:
                    d = "class X@ { %s delegate void D@(%s); static void G(%s) { %s } public static void F() { %s D@ x = G; x(%s); } }" % (base, ps, ps, pr, arr, al)
                    d = None
                if d: yield Case("%s arguments %s" % (form, al), "X@.F();", e2, "", d)

SIDE = [  # statements over int x, y and array a = {10, 20, 30}; effects and the printed x, y, a[0..2] by the model
    "x = y++;", "x = ++y;", "x = y-- - --y;", "x = x++ + x;", "x = x + x++;", "x += x++;", "x -= ++x;", "x = x++ + ++x;", "x = (y = 5) + y;", "x = y + (y = 5);",
    "x = y = 7;", "x += y += 2;", "a[0] = x = 4;", "a[x] = ++x;", "x = a[1]++ + a[1];", "x = ++a[1] + a[1];", "a[0] = a[1] = a[2];", "x = (a[0] = 5) + a[0];",
    "a[0] += a[0]++;", "x = -x++;", "x = -(++x);", "x = x-- * 2 + x;", "x = y > 0 ? y++ : y--;", "x = (x = 3) * (x = x + 1);", "y = x++ * x++;", "y = ++x * ++x;", "y = (x += 2) * (x -= 1);",
]

def side():
    class R(dict): pass
    def interp(stmts, s):
        # statements are translated to Python by hand-written lambdas below
        for f in stmts: f(s)
    def post(s, k, d):
        v = s[k]; s[k] = wrap(v + d, "int"); return v
    def pre(s, k, d):
        s[k] = wrap(s[k] + d, "int"); return s[k]
    def put(s, k, v):
        s[k] = wrap(v, "int"); return s[k]
    M = {
        "x = y++;": lambda s: put(s, "x", post(s, "y", 1)),
        "x = ++y;": lambda s: put(s, "x", pre(s, "y", 1)),
        "x = y-- - --y;": lambda s: put(s, "x", post(s, "y", -1) - pre(s, "y", -1)),
        "x = x++ + x;": lambda s: put(s, "x", post(s, "x", 1) + s["x"]),
        "x = x + x++;": lambda s: put(s, "x", s["x"] + post(s, "x", 1)),
        "x += x++;": lambda s: put(s, "x", s["x"] + post(s, "x", 1)),
        "x -= ++x;": lambda s: put(s, "x", s["x"] - pre(s, "x", 1)),
        "x = x++ + ++x;": lambda s: put(s, "x", post(s, "x", 1) + pre(s, "x", 1)),
        "x = (y = 5) + y;": lambda s: put(s, "x", put(s, "y", 5) + s["y"]),
        "x = y + (y = 5);": lambda s: put(s, "x", s["y"] + put(s, "y", 5)),
        "x = y = 7;": lambda s: put(s, "x", put(s, "y", 7)),
        "x += y += 2;": lambda s: put(s, "x", s["x"] + put(s, "y", s["y"] + 2)),
        "a[0] = x = 4;": lambda s: put(s, 0, put(s, "x", 4)),
        "x = a[1]++ + a[1];": lambda s: put(s, "x", post(s, 1, 1) + s[1]),
        "x = ++a[1] + a[1];": lambda s: put(s, "x", pre(s, 1, 1) + s[1]),
        "a[0] = a[1] = a[2];": lambda s: put(s, 0, put(s, 1, s[2])),
        "x = (a[0] = 5) + a[0];": lambda s: put(s, "x", put(s, 0, 5) + s[0]),
        "a[0] += a[0]++;": lambda s: put(s, 0, s[0] + post(s, 0, 1)),
        "x = -x++;": lambda s: put(s, "x", -post(s, "x", 1)),
        "x = -(++x);": lambda s: put(s, "x", -pre(s, "x", 1)),
        "x = x-- * 2 + x;": lambda s: put(s, "x", post(s, "x", -1) * 2 + s["x"]),
        "x = y > 0 ? y++ : y--;": lambda s: put(s, "x", post(s, "y", 1) if s["y"] > 0 else post(s, "y", -1)),
        "x = (x = 3) * (x = x + 1);": lambda s: put(s, "x", put(s, "x", 3) * put(s, "x", s["x"] + 1)),
        "y = x++ * x++;": lambda s: put(s, "y", post(s, "x", 1) * post(s, "x", 1)),
        "y = ++x * ++x;": lambda s: put(s, "y", pre(s, "x", 1) * pre(s, "x", 1)),
        "y = (x += 2) * (x -= 1);": lambda s: put(s, "y", put(s, "x", s["x"] + 2) * put(s, "x", s["x"] - 1)),
    }
    places = {"local": ("", "int x = 1; int y = -2;", "x", "y"),
              "field": ("class V@ { public int x; public int u; public int y; }", "V@ v = new V@(); v.x = 1; v.y = -2;", "v.x", "v.y"),
              "struct": ("struct V@ { public int x; public int u; public int y; }", "V@ v = new V@(); v.x = 1; v.y = -2;", "v.x", "v.y"),
              "element": ("", "int[] v = new int[3]; v[0] = 1; v[2] = -2;", "v[0]", "v[2]"),
              "matrix": ("", "int[,] v = new int[2,2]; v[0,1] = 1; v[1,0] = -2;", "v[0,1]", "v[1,0]"),
              "parameter": ("class V@ { public static void G(byte p, int x, byte q, int y) { # } }", "V@.G((byte)1, 1, (byte)2, -2);", "x", "y"),
              "ref parameter": ("class V@ { public static void G(byte p, ref int x, ref int y) { # } }", "int v = 1; byte g = (byte)3; int w = -2; V@.G((byte)1, ref v, ref w);", "x", "y"),
              "out parameter": ("class V@ { public static void G(out int x, out int y) { x = 1; y = -2; # } }", "int v; int w; V@.G(out v, out w);", "x", "y"),
              "instance ref parameter": ("class V@ { public void G(ref int x, byte z, ref int y) { # } }", "int v = 1; byte g = (byte)3; int w = -2; new V@().G(ref v, (byte)4, ref w);", "x", "y"),
              "own field": ("class V@ { public byte p; public int x; public byte q; public int y; public void G() { x = 1; y = -2; # } }", "new V@().G();", "x", "y"),
              "base field": ("class W@ { public byte p; public int x; public byte q; public int y; } class V@ : W@ { public int u; public void G() { x = 1; y = -2; # } }", "new V@().G();", "x", "y"),
              "struct's own field": ("struct V@ { public byte p; public int x; public byte q; public int y; public void G() { x = 1; y = -2; # } }", "V@ v = new V@(); v.G();", "x", "y"),
              "field of an element": ("struct V@ { public int x; public byte u; public int y; }", "V@[] v = new V@[2]; v[1].x = 1; v[1].y = -2;", "v[1].x", "v[1].y"),
              "field of a nested struct": ("struct U@ { public byte u; public int x; public int y; } class V@ { public byte p; public U@ s; public byte q; }", "V@ v = new V@(); v.s.x = 1; v.s.y = -2;", "v.s.x", "v.s.y")}
    for pn, (dec, init, ex_, ey) in places.items():
        for k in (1, 2):
            for seq in itertools.product(M, repeat=k):
                s = {"x": 1, "y": -2, 0: 10, 1: 20, 2: 30}
                for st in seq: M[st](s)
                src = " ".join(seq)
                src = re.sub(r"\bx\b", ex_, src); src = re.sub(r"\by\b", ey, src)
                show = "int[] a = new int[]{{10, 20, 30}}; %s Console.WriteLine({}); Console.WriteLine({}); Console.WriteLine(a[0]); Console.WriteLine(a[1]); Console.WriteLine(a[2]);".format(ex_, ey)
                yield Case("%s: %s" % (pn, src), init if "#" in dec else show % (init + " " + src), [str(s["x"]), str(s["y"]), str(s[0]), str(s[1]), str(s[2])], "", dec.replace("#", show % src))

TARGETS = [("a[T(1, 2)] = 7;", ["1"], "a[2]", "7"), ("O(1, x).f = 7;", ["1"], "x.f", "7"), ("O(1, x).P = 7;", ["1"], "x.f", "7"),
           ("m[T(1, 1), T(2, 0)] = 7;", ["1", "2"], "m[1, 0]", "7"), ("a[2] = T(1, 7);", ["1"], "a[2]", "7"), ("x.f = T(1, 7);", ["1"], "x.f", "7"),
           ("a[2] += T(1, 7);", ["1"], "a[2]", "7"), ("x.f += T(1, 7);", ["1"], "x.f", "7"), ("O(1, x).G(T(2, 3), T(3, 4));", ["1", "2", "3"], "x.f", "34"),
           ("a[T(1, 2)] += 7;", ["1"], "a[2]", "7"), ("a[T(1, 2)]++;", ["1"], "a[2]", "1"), ("++a[T(1, 2)];", ["1"], "a[2]", "1"),
           ("O(1, x).f += 7;", ["1"], "x.f", "7"), ("O(1, x).f++;", ["1"], "x.f", "1"), ("++O(1, x).f;", ["1"], "x.f", "1"),
           ("m[T(1, 1), T(2, 0)] += 7;", ["1", "2"], "m[1, 0]", "7")]

def targets():
    for st, tr, e, v in TARGETS:
        yield Case("target " + st, "X@.F();", tr + [v], "",
                   "class X@ { public int f; public int P { get { return f; } set { f = value; } } public void G(int p, int q) { f = p * 10 + q; }"
                   " static int T(int k, int v) { Console.WriteLine(k); return v; } static X@ O(int k, X@ x) { Console.WriteLine(k); return x; }"
                   " public static void F() { X@ x = new X@(); int[] a = new int[4]; int[,] m = new int[2,2]; %s Console.WriteLine(%s); } }" % (st, e))

def run(ex, tier):
    deep = tier == "thorough"
    ch = itertools.chain
    few = ["*", "-", "<<", "&", "|"] if not deep else ["*", "/", "-", "+", ">>", "&", "^", "|"]
    ex.explore("two operators", ch(group(both(2, IOPS, ROPS, LOPS, False, True), False), group(both(2, IOPS, ROPS, LOPS, False, True), True)))
    ex.explore("three operators", ch(group(both(3, few, ["<", "=="], LOPS, False, False), False), group(both(3, few, ["<", "=="], LOPS, False, False), True)))
    ex.explore("conditions", ch(group(both(3 if deep else 2, ["*", "-"], ["<", "=="], LOPS, True, False), False), group(both(2, ["*", "-"], ["<", "=="], LOPS, True, False), True)))
    ex.explore("unary operators", group(both(3, ["*", "-", "|"], ["<"], ["&&"], False, True), False))
    if deep:
        ex.explore("four operators", group(both(4, ["*", "-", "&"], ["<"], LOPS, False, False), False))
    ex.explore("order of operands", traced(ch(both(2, ["-", "*", "&"], ["<", "=="], LOPS, True, True), both(3, ["-"], ["<"], LOPS, True, False))), batch=80)
    ex.explore("order of arguments", arguments(4 if deep else 3), batch=100)
    ex.explore("side effects", side())
    ex.explore("targets", targets(), batch=20)

if __name__ == "__main__":
    main("C06", run, "explicit enumeration of all expression trees up to a bound, printed with minimal and with full parentheses, against a reference evaluator")
