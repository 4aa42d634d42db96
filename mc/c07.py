"""Control flow: every statement tree up to a bound, under every sequence of decisions."""
from fw import *
from num import wrap, lo, hi

EXTRA = """
public class O {
    public int m; public int n; public long h;
    public O(int mask) { m = mask; n = 0; h = 7L; }
    public bool N() { bool r = ((m >> n) & 1) != 0; n = n + 1; T(r ? 1 : 2); return n <= BITS && r; }
    public int V() { int r = n < BITS ? (m >> n) & 3 : 0; n = n + 2; return r; }
    public void T(int k) { h = h * 31L + (long)k; }
}
"""

class Break(Exception): pass
class Continue(Exception): pass
class Return(Exception): pass

class Om:
    def __init__(self, m, bits): self.m, self.n, self.h, self.bits, self.steps = m, 0, 7, bits, 0
    def N(self):
        r = (self.m >> self.n) & 1 != 0 if self.n < 31 else False
        self.n += 1
        self.T(1 if r else 2)
        return self.n <= self.bits and r
    def V(self):
        r = (self.m >> self.n) & 3 if self.n < self.bits else 0
        self.n += 2
        return r
    def T(self, k):
        self.h = wrap(self.h * 31 + k, "long"); self.steps += 1
        if self.steps > 2000: raise OverflowError

# Statements: ("t",) trace, ("break",), ("cont",), ("ret",), ("if", s), ("ife", s, s), ("while", s), ("do", s), ("for", s), ("fori", s),
# ("sw", s, s, s) with labels 0 | 1, 2 | default, ("seq", s, s), ("decl", s): a block with a local of its own

def gen(n, loop, sw, kinds):
    """All statements with n nodes."""
    if n == 1:
        yield ("t",)
        if loop or sw: yield ("break",)
        if loop: yield ("cont",)
        yield ("ret",)
        return
    for k in kinds:
        if k in ("if", "decl"):
            for s in gen(n - 1, loop, sw, kinds): yield (k, s)
        elif k in ("while", "do", "for", "fori", "forever"):
            for s in gen(n - 1, True, False, kinds): yield (k, s)
        elif k in ("ife", "seq"):
            m = n - 1 if k == "ife" else n
            for i in range(1, m):
                for a in gen(i, loop, sw, kinds):
                    if k == "seq" and a[0] == "seq": continue
                    for b in gen(m - i, loop, sw, kinds): yield (k, a, b)
        elif k == "sw" and n >= 4:
            for i in range(1, n - 2):
                for j in range(1, n - 1 - i):
                    for a in gen(i, loop, True, kinds):
                        for b in gen(j, loop, True, kinds):
                            for c in gen(n - 1 - i - j, loop, True, kinds): yield (k, a, b, c)

def number(s, c):
    if s[0] in ("t", "ret"): return s + (next(c),)
    if s[0] in ("break", "cont"): return s
    k = (next(c),) if s[0] in ("for", "fori", "decl") else ()
    return (s[0],) + tuple(number(x, c) for x in s[1:]) + k

def run_(s, o, env):
    k = s[0]
    if k == "t": o.T(s[1])
    elif k == "break": raise Break
    elif k == "cont": raise Continue
    elif k == "ret": raise Return(s[1])
    elif k == "if":
        if o.N(): run_(s[1], o, env)
    elif k == "ife": run_(s[1] if o.N() else s[2], o, env)
    elif k == "seq": run_(s[1], o, env); run_(s[2], o, env)
    elif k == "decl":
        o.T(o.n + s[2]); run_(s[1], o, env); o.T(o.n)
    elif k == "sw":
        v = o.V()
        try: run_(s[1] if v == 0 else s[2] if v in (1, 2) else s[3], o, env)
        except Break: pass
    else:
        if k == "for": o.T(s[2])
        i = 0
        try:
            while True:
                if k in ("while", "for") and not o.N(): break
                if k == "fori" and not i < 2: break
                try: run_(s[1], o, env)
                except Continue: pass
                if k == "for": o.T(s[2] + 1)
                if k == "fori": o.T(i); i += 1
                if k == "do" and not o.N(): break
        except Break: pass

def src(s, ind=""):
    k = s[0]
    if k == "t": return "o.T(%d);" % s[1]
    if k == "break": return "break;"
    if k == "cont": return "continue;"
    if k == "ret": return "return %d;" % s[1]
    if k == "if": return "if (o.N()) { %s }" % src(s[1])
    if k == "ife": return "if (o.N()) { %s } else { %s }" % (src(s[1]), src(s[2]))
    if k == "seq": return src(s[1]) + " " + src(s[2])
    if k == "decl": return "{ int w%d = o.n + %d; o.T(w%d); %s o.T(o.n); }" % (s[2], s[2], s[2], src(s[1]))
    if k == "while": return "while (o.N()) { %s }" % src(s[1])
    if k == "do": return "do { %s } while (o.N());" % src(s[1])
    if k == "for": return "for (o.T(%d); o.N(); o.T(%d)) { %s }" % (s[2], s[2] + 1, src(s[1]))
    if k == "fori": return "for (int i%d = 0; i%d < 2; o.T(i%d), i%d++) { %s }" % (s[2], s[2], s[2], s[2], src(s[1])) if False else \
        "for (int i%d = 0; i%d < 2; i%d = Q.S(o, i%d)) { %s }" % (s[2], s[2], s[2], s[2], src(s[1]))
    if k == "sw": return "switch (o.V()) { case 0: %s break; case 1: case 2: %s break; default: %s break; }" % (src(s[1]), src(s[2]), src(s[3]))
    if k == "forever": return "while (true) { %s }" % src(s[1])

def simplify(s):
    """The same statement without braces around single statements (dangling else kept apart)."""
    return s

def braceless(s):
    k = s[0]
    def body(x): return src(x) if x[0] == "seq" or x[0] == "if" else braceless(x)
    def wrapb(x): return "{ %s }" % src(x) if x[0] in ("seq", "if", "decl") else braceless(x)
    if k == "if": return "if (o.N()) " + wrapb(s[1])
    if k == "ife": return "if (o.N()) %s else %s" % (wrapb(s[1]), wrapb(s[2]) if s[2][0] != "if" else braceless(s[2]))
    if k == "seq": return braceless(s[1]) + " " + braceless(s[2])
    if k == "while": return "while (o.N()) " + wrapb(s[1])
    if k == "for": return "for (o.T(%d); o.N(); o.T(%d)) %s" % (s[2], s[2] + 1, wrapb(s[1]))
    if k == "do": return "do %s while (o.N());" % wrapb(s[1])
    if k == "fori": return "for (int i%d = 0; i%d < 2; i%d = Q.S(o, i%d)) %s" % (s[2], s[2], s[2], s[2], wrapb(s[1]))
    return src(s)

def falls(s):
    """Whether the end of the statement can be reached (as a compiler sees it)."""
    return True

def programs(stmts, bits, form=src):
    for raw in stmts:
        s = number(raw, itertools.count(3, 2))
        exp, ok = [], True
        steps = 0
        for m in range(1 << bits):
            o = Om(m, bits)
            try:
                run_(s, o, {})
                r = 99
            except Return as e:
                r = e.args[0]
            except OverflowError:
                ok = False
                break
            exp += [str(r), str(o.h)]
            steps += o.steps
        if not ok: continue
        t = form(s)
        yield Case(t, "for (int m = 0; m < %d; m++) { O o = new O(m); Console.WriteLine(F@(o)); Console.WriteLine(o.h); }" % (1 << bits), exp,
                   "static int F@(O o) { %s return 99; }" % t, steps=steps)

def voids(stmts, bits):
    """The same in a method returning nothing, with nothing after the statement."""
    for raw in stmts:
        s = number(raw, itertools.count(3, 2))
        exp, ok, steps = [], True, 0
        for m in range(1 << bits):
            o = Om(m, bits)
            try: run_(s, o, {})
            except Return as e: o.T(1000)
            except OverflowError: ok = False; break
            exp.append(str(o.h)); steps += o.steps
        if not ok: continue
        t = re.sub(r"return \d+;", "{ o.T(1000); return; }", src(s))
        yield Case("void " + t, "for (int m = 0; m < %d; m++) { O o = new O(m); F@(o); Console.WriteLine(o.h); }" % (1 << bits), exp,
                   "static void F@(O o) { %s }" % t, steps=steps)

# ------------------------------------------------------------ switch

def switches(deep):
    """All assignments of labels to at most three sections, at each place of the default section."""
    labels = [-1, 0, 1, 2, 100] if deep else [-1, 0, 2, 100]
    for T in ("int", "short", "sbyte", "long", "byte", "ushort", "char", "uint"):
        if T in ("byte", "ushort", "char", "uint"): labels = [0, 97, 200] if T != "ushort" else [0, 97, 60000]
        if T == "char": labels = [97, 98, 65]
        R = "uint" if T == "char" else T
        for secs in itertools.product((0, 1, 2, 3), repeat=len(labels)):       # 3: no section
            used = sorted(set(x for x in secs if x < 3))
            if used != list(range(len(used))): continue
            for dpos in range(-1, len(used) + 1):
                parts = []
                for q in used:
                    parts.append(" ".join("case %s:" % (l if T != "char" else repr(chr(l))) for l, x in zip(labels, secs) if x == q) + " Console.WriteLine(%d); break;" % q)
                if dpos >= 0: parts.insert(dpos, "default: Console.WriteLine(9); break;")
                if not parts: continue
                vals = [v for v in (-2, -1, 0, 1, 2, 3, 65, 97, 98, 100, 101, 200, 60000) if lo(R) <= v <= hi(R)]
                exp = []
                for v in vals:
                    q = dict(zip(labels, secs)).get(v, 3)
                    if q < 3: exp.append(str(q))
                    elif dpos >= 0: exp.append("9")
                    exp.append("-")
                lit = (lambda v: "%d" % v)
                yield Case("switch %s %s" % (T, " ".join(parts)), " ".join("F@((%s)(%d));" % (T, v) for v in vals), exp,
                           "static void F@(%s v) { switch (v) { %s } Console.WriteLine(\"-\"); }" % (T, " ".join(parts)))

def special():
    """Conditions known when compiling, empty bodies, nested jumps, long chains."""
    out = [
        ("if (true) o.T(3); else o.T(4);", [3]), ("if (false) o.T(3); else o.T(4);", [4]), ("while (false) o.T(3); o.T(4);", [4]),
        ("do o.T(3); while (false);", [3]), ("for (int i = 0; i < 3; i++) ; o.T(5);", [5]), ("int i = 0; while (i < 3) i++; o.T(i);", [3]),
        ("for (;;) { o.T(3); break; }", [3]), ("while (true) { o.T(3); if (o.h > 0) break; o.T(4); }", None),
        ("int i = 0; for (;;) { i++; if (i == 2) continue; if (i == 4) break; o.T(i); }", [1, 3]),
        ("int i = 5; do { i--; if (i == 3) continue; o.T(i); } while (i > 1);", [4, 2, 1]),
        ("for (int i = 0, j = 10; i < j; i++) { j--; o.T(i * 100 + j); }", [9, 108, 207, 306, 405]),
        ("int s = 0; for (int i = 0; i < 5; i++) { for (int j = 0; j < 5; j++) { if (j == i) break; if (j == 1) continue; s += i * j; } } o.T(s);", [sum(i * j for i in range(5) for j in range(i) if j != 1)]),
        ("int i = 0; for (; i < 3; ) { o.T(i); i += 2; }", [0, 2]), ("if (1 < 2 && 2 < 3) o.T(7);", [7]), ("const int c = 3; if (c > 2) o.T(1); else o.T(2);", [1]),
        ("int x = 3; if (x > 2) o.T(1); else o.T(2);", [1]), ("int x = 3; x = 1; if (x > 2) o.T(1); else o.T(2);", [2]),
        ("; ; o.T(1); ;", [1]), ("{ } { o.T(1); { } } { }", [1]), ("if (o.n == 0) { } else o.T(1); o.T(2);", [2]),
        ("int i = 3; while (i --> 0) o.T(i);", [2, 1, 0]), ("int k = 2; switch (k) { case 2: o.T(5); break; default: o.T(6); break; }", [5]),
        ("switch (3) { case 2: o.T(5); break; default: o.T(6); break; }", [6]),
        ("for (int i = 0; i < 6; i++) switch (i % 3) { case 0: continue; case 1: o.T(i); break; default: if (i == 2) break; o.T(i); break; }", [1, 4, 5]),
        ("for (int i = 0; i < 3; i++) { int q = i; q *= 2; o.T(q); } for (int i = 0; i < 2; i++) { int q = i + 7; o.T(q); }", [0, 2, 4, 7, 8]),
        ("long w = 4294967297L; switch (w) { case 1: o.T(5); break; case 2: o.T(4); break; default: o.T(6); break; }", [6]),
        ("if (o.N() == false) o.T(1); else if (o.N() == false) o.T(2); else o.T(3);", None),
    ]
    for t, ks in out:
        if ks is None: continue
        o = Om(0, 0)
        for k in ks: o.T(k)
        yield Case(t, "O o = new O(0); " + t + " Console.WriteLine(o.h);", [str(o.h)])

KINDS = ["if", "ife", "seq", "while", "do", "for", "fori", "sw"]

def run(ex, tier):
    deep = tier == "thorough"
    bits = 4
    ex.extra = EXTRA.replace("BITS", str(bits)) + "public class Q { public static int S(O o, int i) { o.T(i); return i + 1; } }\n"
    n = 4
    ch = itertools.chain.from_iterable
    ex.explore("statements up to %d nodes" % n, ch(programs(gen(k, False, False, KINDS + ["decl"]), bits) for k in range(1, n + 1)), batch=120)
    ex.explore("without braces", ch(programs(gen(k, False, False, KINDS), bits, braceless) for k in range(2, n + 1)), batch=120)
    ex.explore("in void methods", ch(voids(gen(k, False, False, KINDS), bits) for k in range(1, n + 1)), batch=120)
    ex.explore("five nodes", programs(gen(5, False, False, KINDS if deep else ["ife", "seq", "while", "fori"]), bits), batch=120)
    ex.explore("five nodes, jumps", programs(gen(5, False, False, ["if", "seq", "do", "sw", "for"]), bits), batch=120)
    if deep:
        ex.explore("six nodes", programs(gen(6, False, False, ["if", "seq", "while", "do"]), bits), batch=120)
    ex.explore("switch", switches(deep))
    ex.explore("special", special())

if __name__ == "__main__":
    main("C07", run, "explicit enumeration of all statement trees up to a bound x all decision sequences, against a reference interpreter")
