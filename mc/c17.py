"""C17: the optimize level does not change what a program does."""
import itertools
from fw import *
from num import *

LV = (0, 1, 2, 3)

# ---------------------------------------------------------------- constant variables
# statements: ("show", form) ("mut", m) ("if", cond, block, else) ("for", n, block) ("while", n, block) ("do", n, block) ("switch", k, block) ("try", block) ("catch", block) ("finally", block) ("block", block)

TYPES = {  # type -> (initial constant, other values)
    "int": ("7", 7, "40", 40), "long": ("7L", 7, "5000000000L", 5000000000), "uint": ("7u", 7, "4000000000u", 4000000000), "byte": ("(byte)7", 7, "(byte)250", 250),
    "short": ("(short)7", 7, "(short)(-300)", -300), "ulong": ("7uL", 7, "18446744073709551615uL", 18446744073709551615), "double": ("2.5", 2.5, "8.25", 8.25), "float": ("2.5f", 2.5, "8.25f", 8.25),
    "bool": ("true", True, "false", False), "char": ("'a'", "a", "'z'", "z"), "string": ('"one"', "one", '"two"', "two"),
}
NUMS = ("int", "long", "uint", "byte", "short", "ulong", "double", "float")

def sh(v, t): return str(v) if t in ("bool", "char", "string") else show(v, t)

def step(v, t, d):
    return f32(v + d) if t == "float" else v + d if t == "double" else wrap(v + d, t)

def mutators(t):
    """name -> (text, effect on (x, y))"""
    c1, v1 = TYPES[t][2:]
    m = {
        "assign": ("x = %s;" % c1, lambda x: v1),
        "assign var": ("x = y;", lambda x: v1),
        "chain": ("z = x = %s;" % c1, lambda x: v1),
        "in argument": ("Use@(x = %s);" % c1, lambda x: v1),
        "ref": ("Ref@(ref x);", lambda x: v1),
        "out": ("Out@(out x);", lambda x: v1),
    }
    if t in NUMS:
        m["post++"] = ("x++;", lambda x: step(x, t, 1))
        m["pre--"] = ("--x;", lambda x: step(x, t, -1))
        m["+="] = ("x += %s;" % {"double": "1.0", "float": "1.0f", "byte": "(byte)1", "short": "(short)1"}.get(t, literal(1, t)), lambda x: step(x, t, 1))
        m["post--"] = ("x--;", lambda x: step(x, t, -1))
        m["pre++"] = ("++x;", lambda x: step(x, t, 1))
        m["-- in expression"] = ("z = --x;", lambda x: step(x, t, -1))
        c = lambda k: {"double": "%d.0" % k, "float": "%d.0f" % k, "byte": "(byte)%d" % k, "short": "(short)%d" % k}.get(t, literal(k, t))
        fl = t in ("float", "double")
        rd = lambda v: f32(v) if t == "float" else v if t == "double" else wrap(v, t)
        q = lambda x, k: x / k if fl else (abs(x) // k) * (-1 if x < 0 else 1)
        m["-="] = ("x -= %s;" % c(3), lambda x: rd(x - 3))
        m["*="] = ("x *= %s;" % c(2), lambda x: rd(x * 2))
        m["/="] = ("x /= %s;" % c(2), lambda x: rd(q(x, 2)))
        if not fl:
            m["%="] = ("x %%= %s;" % c(4), lambda x: rd(x - 4 * q(x, 4)))
            m["&="] = ("x &= %s;" % c(5), lambda x: rd(x & 5))
            m["|="] = ("x |= %s;" % c(24), lambda x: rd(x | 24))
            m["^="] = ("x ^= %s;" % c(10), lambda x: rd(x ^ 10))
            if t in ("int", "long", "uint", "ulong"):
                m["<<="] = ("x <<= 2;", lambda x: rd(x << 2))
                m[">>="] = ("x >>= 1;", lambda x: rd(x >> 1))
        m["++ in expression"] = ("z = x++;", lambda x: step(x, t, 1))
    return m

def reads(t):
    c0, v0 = TYPES[t][:2]
    r = {"show": ("Console.WriteLine(x);", lambda x: [sh(x, t)]), "pass": ("Use@(x);", lambda x: [sh(x, t)]), "copy": ("w = x; Console.WriteLine(w);", lambda x: [sh(x, t)])}
    if t != "string":
        r["test"] = ("if (x == %s) Console.WriteLine(\"same\"); else Console.WriteLine(\"other\");" % c0, lambda x: ["same" if x == v0 else "other"])
    if t in ("int", "long", "double", "uint", "ulong"):
        r["compute"] = ("Console.WriteLine(x + x * x);", lambda x: [sh(arith("+", x, t, *arith("*", x, t, x, t))[0], t)])
    if t == "int":
        r["switch"] = ("switch (x) { case 7: Console.WriteLine(\"c7\"); break; case 8: Console.WriteLine(\"c8\"); break; default: Console.WriteLine(\"d\"); break; }", lambda x: ["c7" if x == 7 else "c8" if x == 8 else "d"])
    return r

def contexts(R, M, R2):
    """(name, program) around a read, a mutation and a second read; the programs are lists of statements."""
    yield "sequence", [R, M, R2]
    yield "no write", [R, R2]
    for c in ("t", "f", "true", "false"):
        yield "if " + c, [R, ("if", c, [M], []), R2]
        yield "else " + c, [R, ("if", c, [R2], [M]), R2]
    for loop in ("for", "while", "do"):
        yield loop, [(loop, 3, [R, M]), R2]
        yield loop + " after", [(loop, 2, [M]), R]
        yield loop + " once", [R, (loop, 1, [M, R]), R2]
        yield "nested " + loop, [(loop, 2, [R, ("for", 2, [R2, M])]), R]
    yield "for never", [R, ("for", 0, [M]), R2]
    yield "switch", [R, ("switch", 1, [M], [R]), R2]
    yield "switch other", [R, ("switch", 0, [M], [R]), R2]
    yield "try", [("try", [R, M]), R2]
    yield "catch", [R, ("catch", [M, R]), R2]
    yield "finally", [R, ("finally", [M]), R2]
    yield "block", [R, ("block", [M]), R2]

class Gen:
    """Renders and interprets a program of contexts."""
    def __init__(self): self.n = 0
    def text(self, b):
        out = []
        for s in b:
            k = s[0]
            if k in ("r", "m"): out.append(s[1])
            elif k == "if": out.append("if (%s) { %s } else { %s }" % (s[1], self.text(s[2]), self.text(s[3])))
            elif k in ("for", "while", "do"):
                self.n += 1
                i, body = "i%d" % self.n, self.text(s[2])
                if k == "for": out.append("for (int %s = 0; %s < %d; %s++) { %s }" % (i, i, s[1], i, body))
                elif k == "while": out.append("int %s = 0; while (%s < %d) { %s %s++; }" % (i, i, s[1], body, i))
                else: out.append("int %s = 0; do { %s %s++; } while (%s < %d);" % (i, body, i, i, s[1]))
            elif k == "switch": out.append("switch (one) { case %d: %s break; default: %s break; }" % (s[1], self.text(s[2]), self.text(s[3])))
            elif k == "try": out.append("try { %s } catch (Exception e) { }" % self.text(s[1]))
            elif k == "catch": out.append("try { Throw@(); } catch (Exception e) { %s }" % self.text(s[1]))
            elif k == "finally": out.append("try { Nop@(); } finally { %s }" % self.text(s[1]))
            elif k == "block": out.append("{ %s }" % self.text(s[1]))
        return " ".join(out)
    def run(self, b, st, out):
        for s in b:
            k = s[0]
            if k == "r": out += s[2](st[0])
            elif k == "m":
                if s[3]: out += s[3](st[0])
                st[0] = s[2](st[0])
            elif k == "if": self.run(s[2] if s[1] in ("t", "true") else s[3], st, out)
            elif k in ("for", "while", "do"):
                for _ in range(max(s[1], 1 if k == "do" else 0)): self.run(s[2], st, out)
            elif k == "switch": self.run(s[2] if s[1] == 1 else s[3], st, out)
            else: self.run(s[1], st, out)
        return out

def constant_variables(thorough):
    for t in TYPES:
        c0, v0, c1, v1 = TYPES[t]
        rs = reads(t)
        mem = "static void Use@(%s p) { Console.WriteLine(p); } static void Ref@(ref %s p) { p = %s; } static void Out@(out %s p) { p = %s; } static void Throw@() { throw new Exception(); } static void Nop@() { }" % (t, t, c1, t, c1)
        for mn, (mt, mf) in mutators(t).items():
            echo = (lambda x: [sh(v1, t)]) if mn == "in argument" else None
            ring = [(a, b) for a, b in zip(rs, list(rs)[1:] + list(rs)[:1])]
            if t != "int" and not thorough: ring = ring[len(mn) % len(ring):][:2]
            pairs = list(itertools.product(rs, rs)) if thorough else ring
            for r1, r2 in pairs:
                R, R2, M = ("r",) + rs[r1], ("r",) + rs[r2], ("m", mt, mf, echo)
                for cn, prog in contexts(R, M, R2):
                    for place in ("outer", "loop") if thorough or t in ("int", "string") else ("outer",):
                        g = Gen()
                        body = g.text(prog)
                        n = 1 if place == "outer" else 2
                        exp = []
                        for _ in range(n): g.run(prog, [v0], exp)
                        pre = "bool t = Yes@(); bool f = !t; int one = One@(); %s y = %s; %s z = %s; %s w = %s; z = y; " % (t, c1, t, c1, t, c1)
                        decl = "%s x = %s; %s" % (t, c0, body)
                        if n == 2: decl = "for (int q = 0; q < 2; q++) { %s }" % decl
                        yield Case("const var %s %s, %s, %s then %s, %s" % (t, mn, cn, r1, r2, place), pre + decl, exp, mem + " static bool Yes@() { return true; } static int One@() { return 1; }")

def copies():
    """Chains of variables initialised with each other, with one of them written, and shadows of the same name in sibling blocks."""
    for t in TYPES:
        c0, v0, c1, v1 = TYPES[t]
        for kind in itertools.product(("var", "const"), repeat=3):
            for wr in (None, 0, 1, 2):
                if wr is not None and kind[wr] == "const": continue
                if any(kind[i] == "const" and kind[i - 1] == "var" for i in (1, 2)): continue      # a constant needs a constant
                pre = lambda i: "const " if kind[i] == "const" else ""
                body = "%s%s a = %s; %s%s b = a; %s%s c = b; " % (pre(0), t, c0, pre(1), t, pre(2), t)
                vals = [v0, v0, v0]
                if wr is not None:
                    body += "%s = %s; " % ("abc"[wr], c1)
                    vals[wr] = v1
                body += " ".join("Console.WriteLine(%s);" % n for n in "abc")
                yield Case("copies %s %s write %s" % (t, kind, wr), body, [sh(v, t) for v in vals])
        body = "{ %s x = %s; Console.WriteLine(x); } { %s x = %s; Console.WriteLine(x); } { %s x = %s; x = %s; Console.WriteLine(x); } for (int i = 0; i < 2; i++) { %s x = %s; Console.WriteLine(x); }" % (t, c0, t, c1, t, c0, c1, t, c1)
        yield Case("siblings %s" % t, body, [sh(v, t) for v in (v0, v1, v1, v1, v1)])

# ---------------------------------------------------------------- neutral constants in expressions

KS = {"int": [0, 1, -1, 2], "long": [0, 1, -1], "uint": [0, 1], "ulong": [0, 1], "byte": [0, 1], "sbyte": [0, 1, -1], "short": [0, 1], "ushort": [1], "double": [0.0, 1.0, -1.0], "float": [0.0, 1.0]}
OPS = ["+", "-", "*", "/", "%", "&", "|", "^"]
XV = {"int": [-2147483647, -1, 0, 5], "long": [-5000000000, 0, 3], "uint": [0, 4294967295, 6], "ulong": [0, 18446744073709551615], "byte": [0, 255], "sbyte": [-128, 5], "short": [-32768, 3], "ushort": [65535], "double": [-2.5, 0.0, 3.0], "float": [-2.5, 3.0]}

def neutral(types, ktypes, nested):
    """x op K, K op x (and both nested in another such), x a local, a field, or a call that reports itself."""
    for t in types:
        for tk in ktypes:
            for k in KS[tk]:
                for op in OPS:
                    for side in "lr":
                        for op2, tk2, k2, side2 in (itertools.product(OPS, ("int", "long", "double") if nested > 1 else ("int",), (0, 1), "lr") if nested else [(None, None, None, None)]):
                            body, exp = "", []
                            for j, v in enumerate(XV[t]):
                                a = arith(op, v, t, k, tk) if side == "r" else arith(op, k, tk, v, t)
                                if a is None: continue
                                lit = literal(k, tk)
                                e = "X %s %s" % (op, lit) if side == "r" else "%s %s X" % (lit, op)
                                if op2:
                                    k3 = float(k2) if tk2 == "double" else k2
                                    a = arith(op2, a[0], a[1], k3, tk2) if side2 == "r" else arith(op2, k3, tk2, a[0], a[1])
                                    if a is None: continue
                                    l2 = literal(k3, tk2)
                                    e = "(%s) %s %s" % (e, op2, l2) if side2 == "r" else "%s %s (%s)" % (l2, op2, e)
                                if a[0] != a[0] or isinstance(a[0], float) and a[0] == 0 and str(a[0])[0] == "-": continue
                                body += "x = %s; Console.WriteLine(%s); " % (literal(v, t), e.replace("X", "x"))
                                exp.append(show(a[0], a[1]))
                                if j == 0 or not op2:
                                    body += "Console.WriteLine(%s); " % e.replace("X", "G@(x)")
                                    exp += ["G", show(a[0], a[1])]
                            if not exp: continue
                            key = "neutral %s %s %s %s %s" % (t, op, tk, k, side) + (" then %s %s %s %s" % (op2, tk2, k2, side2) if op2 else "")
                            yield Case(key, "%s x = %s; x = H@(); %s" % (t, literal(XV[t][0], t), body), exp, "static %s G@(%s v) { Console.WriteLine(\"G\"); return v; } static %s H@() { return %s; }" % (t, t, t, literal(XV[t][0], t)))

def shifts():
    for t in ITYPES:
        for op in ("<<", ">>"):
            for k in (0, 1):
                for v in XV[t]:
                    pt = promote(t)
                    r = wrap(v << k, pt) if op == "<<" else v >> k
                    yield Case("shift %s %s %s %d" % (v, t, op, k), "%s x = H@(); Console.WriteLine(x %s %d); Console.WriteLine((x %s %d) + 0); Console.WriteLine(0 | (x %s %d));" % (t, op, k, op, k, op, k),
                               [show(r, pt)] + [show(arith("+", r, pt, 0, "int")[0], pt), show(arith("|", 0, "int", r, pt)[0], pt)], "static %s H@() { return %s; }" % (t, literal(v, t)))

# ---------------------------------------------------------------- boolean constants

def booleans(n):
    """Every formula of up to n operators over true, false, a constant variable and two calls that report themselves."""
    leaves = [("true", lambda o: True), ("false", lambda o: False), ("ct", lambda o: True), ("A@()", lambda o: (o.append("A"), True)[1]), ("B@()", lambda o: (o.append("B"), False)[1]), ("1 < 2", lambda o: True)]
    def mk(k):
        if k == 0:
            for l in leaves: yield l
            return
        for t, f in mk(k - 1):
            yield "!(%s)" % t, (lambda f: lambda o: not f(o))(f)
        for i in range(k):
            for (t1, f1), (t2, f2) in itertools.product(mk(i), list(mk(k - 1 - i))):
                yield "(%s) && (%s)" % (t1, t2), (lambda f, g: lambda o: f(o) and g(o))(f1, f2)
                yield "(%s) || (%s)" % (t1, t2), (lambda f, g: lambda o: f(o) or g(o))(f1, f2)
    mem = "static bool A@() { Console.WriteLine(\"A\"); return true; } static bool B@() { Console.WriteLine(\"B\"); return false; }"
    for k in range(n + 1):
        for t, f in mk(k):
            o = []
            v = f(o)
            o2 = o + ["1" if v else "0"]
            yield Case("bool " + t, "bool ct = true; Console.WriteLine(%s); if (%s) Console.WriteLine(1); else Console.WriteLine(0); bool r = %s; Console.WriteLine(r); Console.WriteLine((%s) ? 1 : 0);" % (t, t, t, t),
                       o + [str(v)] + o2 + o + [str(v)] + o2, mem)

# ---------------------------------------------------------------- constant expressions

def constants(ops1, types):
    """Constant expressions of two operators over literals of all types, as value, const and initialiser."""
    CV = {"int": [3, -7, 0, 2147483647], "long": [-4, 5000000000], "uint": [9, 4294967295], "ulong": [18446744073709551610], "byte": [200], "sbyte": [-100], "short": [-30000], "ushort": [60000], "double": [0.75, -3.5], "float": [1.25]}
    for (t1, t2, t3) in itertools.product(types, repeat=3):
        for o1, o2 in itertools.product(ops1, repeat=2):
            for shape in ("l", "r"):
                body, exp = "", []
                n = 0
                for a, b, c in itertools.product(CV[t1][:2], CV[t2][:2], CV[t3][:2]):
                    if shape == "l":
                        x = arith(o1, a, t1, b, t2)
                        x = x and arith(o2, x[0], x[1], c, t3)
                        e = "(%s %s %s) %s %s" % (literal(a, t1), o1, literal(b, t2), o2, literal(c, t3))
                    else:
                        x = arith(o2, b, t2, c, t3)
                        x = x and arith(o1, a, t1, x[0], x[1])
                        e = "%s %s (%s %s %s)" % (literal(a, t1), o1, literal(b, t2), o2, literal(c, t3))
                    if x is None or x[0] != x[0] or x[0] == 0 and isinstance(x[0], float): continue
                    v, t = x
                    body += "Console.WriteLine(%s); const %s k%d = %s; Console.WriteLine(k%d); %s v%d = %s; Console.WriteLine(v%d); " % (e, t, n, e, n, t, n, e, n)
                    exp += [show(v, t)] * 3
                    n += 1
                if exp:
                    yield Case("constants %s %s %s %s %s %s" % (shape, t1, o1, t2, o2, t3), body, exp)

# ---------------------------------------------------------------- constant conditions and unreached code

def flow(depth, width):
    """Blocks of at most width statements, nested to depth, over jumps, constant and computed conditions."""
    CONDS = [("true", True), ("false", False), ("t", True), ("f", False), ("1 > 2", False), ("ct", True)]
    JUMPS = ["show", "return", "throw", "break", "continue"]
    def stmts(d, inloop):
        for j in JUMPS:
            if j in ("break", "continue") and not inloop: continue
            yield (j,)
        if d == 0: return
        for c in CONDS:
            for b in blocks(d - 1, inloop, 1):
                yield ("if", c, b)
        for c in CONDS[:4]:
            for b in blocks(d - 1, True, 2 if width > 1 else 1):
                yield ("while", c, b)
                yield ("do", c, b)
                yield ("for", c, b)
        for b in blocks(d - 1, inloop, 1):
            yield ("try", b)
            yield ("finally", b)
            yield ("switch", b)
    def blocks(d, inloop, w):
        for n in range(1, w + 1):
            yield from itertools.product(list(stmts(d, inloop)), repeat=n)
    class Jump(Exception):
        pass
    class Stop(Exception):
        pass
    def text(b, ctr):
        o = []
        for s in b:
            k = s[0]
            if k == "show":
                ctr[0] += 1
                o.append("Console.WriteLine(%d);" % ctr[0])
            elif k == "return": o.append("return;")
            elif k == "throw": o.append("throw new Exception();")
            elif k in ("break", "continue"): o.append(k + ";")
            elif k == "if": o.append("if (%s) { %s }" % (s[1][0], text(s[2], ctr)))
            elif k == "while": o.append("while (%s) { if (n@() > 3) break; %s }" % (s[1][0], text(s[2], ctr)))
            elif k == "do": o.append("do { if (n@() > 3) break; %s } while (%s);" % (text(s[2], ctr), s[1][0]))
            elif k == "for": o.append("for (; %s; ) { if (n@() > 3) break; %s }" % (s[1][0], text(s[2], ctr)))
            elif k == "try": o.append("try { %s } catch (Exception e) { Console.WriteLine(\"c\"); }" % text(s[1], ctr))
            elif k == "finally": o.append("try { %s } finally { Console.WriteLine(\"f\"); }" % text(s[1], ctr))
            elif k == "switch": o.append("switch (1) { case 0: Console.WriteLine(\"z\"); break; case 1: %s break; }" % text([x for x in s[1]], ctr))
        return " ".join(o)
    return stmts, blocks, text

def number(b, ctr):
    """Numbers the shows as text does."""
    r = []
    for s in b:
        k = s[0]
        if k == "show":
            ctr[0] += 1
            r.append(("show", ctr[0]))
        elif k == "if": r.append(("if", s[1], number(s[2], ctr)))
        elif k in ("while", "do", "for"): r.append((k, s[1], number(s[2], ctr)))
        elif k in ("try", "finally", "switch"): r.append((k, number(s[1], ctr)))
        else: r.append(s)
    return r

def interp(b, out, cnt):
    """Returns None, 'return', 'throw', 'break' or 'continue'."""
    for s in b:
        k = s[0]
        if k == "show": out.append(str(s[1]))
        elif k in ("return", "throw", "break", "continue"): return k
        elif k == "if":
            if s[1][1]:
                j = interp(s[2], out, cnt)
                if j: return j
        elif k in ("while", "do", "for"):
            first = k == "do"
            while first or s[1][1]:
                first = False
                cnt[0] += 1
                if cnt[0] > 3: break
                j = interp(s[2], out, cnt)
                if j == "break": break
                if j in ("return", "throw"): return j
        elif k == "try":
            j = interp(s[1], out, cnt)
            if j == "throw": out.append("c")
            elif j: return j
        elif k == "finally":
            j = interp(s[1], out, cnt)
            out.append("f")
            if j: return j
        elif k == "switch":
            j = interp(s[1], out, cnt)
            if j == "break": j = None
            if j: return j
    return None

def flows(depth, width, nested):
    stmts, blocks, text = flow(depth, width)
    n = 0
    tail = [("show",)]
    for b in blocks(depth, False, nested):
        prog = list(b) + tail
        if sum(1 for s in prog if len(s) > 1) == 0 and len(b) > 1 and b[0][0] == "show": continue
        t = text(prog, [0])
        out, cnt = [], [0]
        j = interp(number(prog, [0]), out, cnt)
        out.append("x" if j == "throw" else "e")
        mem = "class N@ { public int c; } static N@ k@; "
        body = "Ctr.c.n = 0; try { F@(true, false); Console.WriteLine(\"e\"); } catch (Exception q) { Console.WriteLine(\"x\"); }"
        yield Case("flow " + t, "Ctr@ c = new Ctr@(); try { F@(c, true, false); Console.WriteLine(\"e\"); } catch (Exception q) { Console.WriteLine(\"x\"); }", out,
                   "static void F@(Ctr@ c, bool t, bool f) { bool ct = true; %s }" % t.replace("n@()", "c.N()"), "public class Ctr@ { int n; public int N() { n++; return n; } }")
        n += 1

def run(ex, tier):
    th = tier == "thorough"
    ex.opts = LV
    ex.explore("constant variables", constant_variables(th), batch=120)
    ex.explore("copies", copies())
    ex.explore("neutral", neutral(list(XV), list(KS) if th else ["int", "uint", "long", "double", "byte"], 0))
    ex.explore("neutral nested", neutral(list(XV) if th else ["int", "uint", "double"], ["int", "long", "uint", "double"] if th else ["int"], 2 if th else 1))
    ex.explore("shifts", shifts())
    ex.explore("booleans", booleans(3 if th else 2))
    ex.explore("constants", constants(OPS[:5], list(KS)) if th else constants(["+", "*", "/"], ["int", "uint", "long", "double", "byte"]))
    ex.explore("flow 1", flows(1, 1, 2))
    if th:
        ex.explore("flow 2", flows(2, 1, 1))
        ex.explore("flow 2 wide", flows(2, 2, 1))
    else:
        ex.explore("flow 2", flows(2, 1, 1))

if __name__ == "__main__":
    main("C17", run, "exhaustive enumeration of a bounded program space on the real compiler and VM at all four optimize levels, against a reference interpreter")
