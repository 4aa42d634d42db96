"""Comparisons and boolean logic, in every context a condition can stand."""
from fw import *
from num import *
from forms import *
from c01 import split

CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
       "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}

def fvals(t):
    return [-2.5, -1.0, 0.0, 0.5, 1.0, 3.0, 100.25]

def vals(t):
    if t in FLOATS: return fvals(t)
    if t == "char": return [0x21, 0x41, 0x61, 0x7e]
    return bounds(t)

def small(t):
    if t in FLOATS: return [-1.0, 0.0, 0.5, 3.0]
    if t == "char": return [0x41, 0x61]
    return sorted(set([0, 1, 3, hi(t), lo(t)]))

def lit(v, t):
    if t == "char": return "'%c'" % v
    return literal(v, t)

def arr(t, vs):
    return "new %s[]{%s}" % (t, ", ".join(lit(v, t) for v in vs))

def common(ta, tb):
    if ta == "char" and tb == "char": return None
    return result_type(ta, tb)

def cmpv(op, a, ta, b, tb):
    t = common(ta, tb)
    if t is None: return CMP[op](a, b)
    if t == "float": return CMP[op](f32(a), f32(b))
    if t == "double": return CMP[op](float(a), float(b))
    return CMP[op](wrap(a, t), wrap(b, t))

TYPES = NTYPES

def pairs():
    for a in TYPES:
        for b in TYPES:
            yield a, b
    yield "char", "char"

CONTEXTS = {
    "value": "Console.WriteLine(%s);",
    "if": "if (%s) Console.WriteLine(true); else Console.WriteLine(false);",
    "if!": "if (!(%s)) Console.WriteLine(false); else Console.WriteLine(true);",
    "ifonly": "bool r = false; if (%s) r = true; Console.WriteLine(r);",
    "while": "bool r = false; while (%s) { r = true; break; } Console.WriteLine(r);",
    "for": "bool r = false; for (; %s; ) { r = true; break; } Console.WriteLine(r);",
    "do": "int n = 0; do { n++; if (n == 2) break; } while (%s); Console.WriteLine(n == 2);",
    "ternary": "Console.WriteLine(%s ? true : false);",
    "local": "bool r = %s; Console.WriteLine(r);",
    "and": "bool t = true; Console.WriteLine(t && %s);",
    "or": "bool t = false; Console.WriteLine(%s || t);",
    "arg": "Console.WriteLine(idb@(%s));",
    "field": "BX@ x = new BX@(); x.b = %s; Console.WriteLine(x.b);",
    "return": "Console.WriteLine(rt@(p, q));",
}

def gen(values, forms, contexts):
    for op in CMP:
        for ta, tb in pairs():
            for fa, fb in forms:
                for cx in contexts:
                    m1, s1, x1 = operand(fa, ta, "p", "a")
                    m2, s2, x2 = operand(fb, tb, "q", "b")
                    e = "%s %s %s" % (x1, op, x2)
                    c = CONTEXTS[cx]
                    ms = [m1, m2]
                    if cx == "arg": ms.append("static bool idb@(bool b) { return b; }")
                    if cx == "field": ms.append("class BX@ { public byte a; public bool b; public byte c; }")
                    if cx == "return": ms.append("static bool rt@(%s p, %s q) { %s %s return %s; }" % (ta, tb, s1, s2, e))
                    stm = c % e if "%s" in c else c
                    A, B = values(ta), values(tb)
                    exp = [str(cmpv(op, a, ta, b, tb)) for a in A for b in B]
                    if cx == "return": s1 = s2 = ""
                    ms.append("static void F@(%s p, %s q) { %s %s %s }" % (ta, tb, s1, s2, stm))
                    mem, dec = split(ms)
                    yield Case("%s(%s) %s %s(%s) as %s" % (ta, fa, op, tb, fb, cx),
                               "%s[] A = %s; %s[] B = %s; for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) F@(A[i], B[j]);" % (
                                   ta, arr(ta, A), tb, arr(tb, B), len(A), len(B)), exp, mem, dec)

def literals(left, contexts):
    for op in CMP:
        for ta, tb in pairs():
            for l in small(tb if not left else ta):
                T = ta if not left else tb
                A = small(T)
                exp = [str(cmpv(op, a, ta, l, tb) if not left else cmpv(op, l, ta, a, tb)) for a in A]
                e = "p %s %s" % (op, lit(l, tb)) if not left else "%s %s p" % (lit(l, ta), op)
                for cx in contexts:
                    yield Case("%s: %s as %s" % (T, e, cx), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (T, arr(T, A), len(A)),
                               exp, "static void F@(%s p) { %s }" % (T, CONTEXTS[cx] % e))

def folded():
    for op in CMP:
        for ta, tb in pairs():
            body, exp = [], []
            for a in small(ta):
                for b in small(tb):
                    body.append("Console.WriteLine(%s %s %s);" % (lit(a, ta), op, lit(b, tb)))
                    exp.append(str(cmpv(op, a, ta, b, tb)))
            yield Case("folded %s %s %s" % (ta, op, tb), "\n".join(body), exp)

# ---- boolean logic: every formula over three variables up to a size

def formulas(n):
    """All formulas with n connectives over a, b, c, and literals at size 0."""
    if n == 0:
        for v in "abc": yield v, (lambda v: lambda e: e[v])(v)
        return
    for s, f in formulas(n - 1):
        yield "!(%s)" % s, (lambda f: lambda e: not f(e))(f)
    for i in range(n):
        for s1, f1 in formulas(i):
            for s2, f2 in formulas(n - 1 - i):
                w1 = s1 if i == 0 else "(%s)" % s1
                w2 = s2 if n - 1 - i == 0 else "(%s)" % s2
                yield "%s && %s" % (w1, w2), (lambda f1, f2: lambda e: f1(e) and f2(e))(f1, f2)
                yield "%s || %s" % (w1, w2), (lambda f1, f2: lambda e: f1(e) or f2(e))(f1, f2)
                yield "%s == %s" % (w1, w2), (lambda f1, f2: lambda e: f1(e) == f2(e))(f1, f2)
                yield "%s != %s" % (w1, w2), (lambda f1, f2: lambda e: f1(e) != f2(e))(f1, f2)

def logic(n, contexts):
    loop = "bool[] B = new bool[]{false, true}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) F@(B[i], B[j], B[k]);"
    for s, f in formulas(n):
        exp = [str(f({"a": i, "b": j, "c": k})) for i in (False, True) for j in (False, True) for k in (False, True)]
        for cx in contexts:
            yield Case("%s as %s" % (s, cx), loop, exp, "static void F@(bool a, bool b, bool c) { %s }" % (CONTEXTS[cx] % s))

def logic_const(n):
    """The same formulas over constants (folded)."""
    for s, f in formulas(n):
        body, exp = [], []
        for i in (False, True):
            for j in (False, True):
                for k in (False, True):
                    e = {"a": i, "b": j, "c": k}
                    t = "".join(str(e[c]).lower() if c in "abc" else c for c in s)
                    body.append("Console.WriteLine(%s);" % t); exp.append(str(f(e)))
        yield Case("constants in " + s, "\n".join(body), exp)
        # one constant, two variables
        for v in "abc":
            if v not in s: continue
            for c in (False, True):
                t = "".join(str(c).lower() if ch == v else ch for ch in s)
                ex2 = [str(f(dict(zip("abc", x), **{v: c}))) for x in itertools.product((False, True), repeat=3)]
                yield Case("%s with %s=%s" % (s, v, c),
                           "bool[] B = new bool[]{false, true}; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 2; k++) F@(B[i], B[j], B[k]);",
                           ex2, "static void F@(bool a, bool b, bool c) { Console.WriteLine(%s); }" % t)

def run(ex, tier):
    deep = tier == "thorough"
    cx1 = [c for c in CONTEXTS if "%s" in CONTEXTS[c] and c not in ("arg", "field")]
    ex.explore("values", gen(vals, [("local", "local")], ["value", "if"]), batch=20)
    ex.explore("contexts", gen(small, [("local", "local"), ("param", "param")] if deep else [("param", "local")], list(CONTEXTS)), batch=80)
    fs = [(a, b) for a in FORMS for b in FORMS if deep or a == b]
    ex.explore("operand places", gen(small, fs, ["value", "if", "while"] if deep else ["if"]), batch=80, opts=(0, 2) if deep else (0,))
    ex.explore("literal right", literals(False, ["if", "value"] if not deep else cx1))
    ex.explore("literal left", literals(True, ["if", "value"] if not deep else cx1))
    ex.explore("folded", folded())
    for n in (0, 1, 2):
        ex.explore("logic, %d connectives" % n, logic(n, cx1))
    ex.explore("logic, constants", itertools.chain(logic_const(1), logic_const(2)) if deep else logic_const(1))
    if deep:
        ex.explore("logic, 3 connectives", logic(3, ["value", "if", "while"]))

if __name__ == "__main__":
    main("C03", run, "explicit enumeration of comparisons x types x places x values x contexts, and of all boolean formulas up to a size x all assignments")
