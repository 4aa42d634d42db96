"""Floating point arithmetic."""
from fw import *
from num import *
from forms import *
from c01 import split
from fractions import Fraction

OPS = ["+", "-", "*", "/"]
VALS = {"float": [0.0, 1.0, -1.0, 0.5, 2.5, -3.75, 100.0, 16777216.0, 0.125, -1000.5],
        "double": [0.0, 1.0, -1.0, 0.5, 2.5, -3.75, 100.0, 16777217.0, 9007199254740991.0, 0.0009765625, -1000.5]}

def vals(t):
    return VALS[t] if t in FLOATS else small(t)

def small(t):
    return sorted(set([0, 1, 2, 100, hi(t)] + ([-1, -3, lo(t)] if INTS[t][1] else [])))

PAIRS = [(a, b) for a in NTYPES for b in NTYPES if a in FLOATS or b in FLOATS]

def exact_literal(v):
    """Whether a literal of few digits has exactly this value, however it is read."""
    s = "%.6f" % abs(v)
    if abs(v) >= 1 << 24: return False
    return Fraction(s) == abs(Fraction(v)) if not (math.isinf(v) or v != v) else False

def results(op, ta, tb, values):
    out = []
    for a in values(ta):
        for b in values(tb):
            r = arith(op, a, ta, b, tb)
            if r is None: continue
            v, t = r
            if v == 0 and math.copysign(1, v) < 0: continue     # the sign of zero is printed
            out.append((a, b, v))
    return out

def binary(ops, fa, fb, values=vals):
    for op in ops:
        for ta, tb in PAIRS:
            rt = result_type(ta, tb)
            rs = results(op, ta, tb, values)
            rs = [(a, b, v) for a, b, v in rs if exact_literal(v)] + [(a, b, v) for a, b, v in rs if not exact_literal(v)]
            ne = sum(1 for r in rs if exact_literal(r[2]))
            m1, s1, x1 = operand(fa, ta, "p", "a")
            m2, s2, x2 = operand(fb, tb, "q", "b")
            body = ["%s[] A = %s; %s[] B = %s; %s[] R = %s;" % (ta, array(ta, [r[0] for r in rs]), tb, array(tb, [r[1] for r in rs]),
                                                             rt, array(rt, [r[2] if i < ne else 0.0 for i, r in enumerate(rs)])),
                    "for (int i = 0; i < %d; i++) F@(A[i], B[i], R[i], i < %d);" % (len(rs), ne)]
            exp = []
            for i, (a, b, v) in enumerate(rs):
                exp += [g(v), "True" if i < ne else "-"]
            fn = ('static void F@(%s p, %s q, %s r, bool e) { %s %s Console.WriteLine(%s %s %s); if (e) Console.WriteLine((%s %s %s) == r); else Console.WriteLine("-"); }'
                  % (ta, tb, rt, s1, s2, x1, op, x2, x1, op, x2))
            mem, dec = split([m1, m2, fn])
            yield Case("%s(%s) %s %s(%s)" % (ta, fa, op, tb, fb), "\n".join(body), exp, mem, dec)

def literals(ops, left):
    for op in ops:
        for ta, tb in PAIRS:
            T = tb if left else ta
            for lit in vals(ta if left else tb):
                vs, exp = [], []
                for v in vals(T):
                    r = arith(op, lit, ta, v, tb) if left else arith(op, v, ta, lit, tb)
                    if r is None or (r[0] == 0 and math.copysign(1, r[0]) < 0): continue
                    vs.append(v); exp.append(g(r[0]))
                if not vs: continue
                e = "%s %s p" % (literal(lit, ta), op) if left else "p %s %s" % (op, literal(lit, tb))
                yield Case("%s: %s" % (T, e), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (T, array(T, vs), len(vs)), exp,
                           "static void F@(%s p) { Console.WriteLine(%s); }" % (T, e))

def folded(ops):
    for op in ops:
        for ta, tb in PAIRS:
            body, exp = [], []
            for a, b, v in results(op, ta, tb, vals):
                body.append("Console.WriteLine(%s %s %s);" % (literal(a, ta), op, literal(b, tb)))
                exp.append(g(v))
            yield Case("folded %s %s %s" % (ta, op, tb), "\n".join(body), exp)

def compound(ops, lv, fb):
    for op in ops:
        for ta in FLOATS:
            for tb in NTYPES:
                if result_type(ta, tb) != ta: continue
                rs = results(op, ta, tb, vals)
                m1, s1, x1 = operand(lv, ta, "p", "a")
                m2, s2, x2 = operand("local" if fb == "value" else fb, tb, "q", "b")
                body = ["%s[] A = %s; %s[] B = %s;" % (ta, array(ta, [r[0] for r in rs]), tb, array(tb, [r[1] for r in rs])),
                        "for (int i = 0; i < %d; i++) F@(A[i], B[i]);" % len(rs)]
                fn = "static void F@(%s p, %s q) { %s %s %s Console.WriteLine(%s); }" % (ta, tb, s1, s2, ("Console.WriteLine(%s %s= %s);" if fb == "value" else "%s %s= %s;") % (x1, op, x2), x1)
                mem, dec = split([m1, m2] + by_ref(lv, fn, ta))
                yield Case("%s(%s) %s= %s(%s)" % (ta, lv, op, tb, fb), "\n".join(body), [g(r[2]) for r in rs for _ in range(1 + (fb == "value") + (lv == "refp"))], mem, dec)

def unary():
    for t in FLOATS:
        for f in FORMS:
            vs = [v for v in vals(t) if v != 0]
            m, s, x = operand(f, t, "p", "a")
            mem, dec = split([m, "static void F@(%s p) { %s Console.WriteLine(-%s); Console.WriteLine(+%s); Console.WriteLine(-(-%s)); }" % (t, s, x, x, x)])
            yield Case("-%s(%s)" % (t, f), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (t, array(t, vs), len(vs)),
                       [y for v in vs for y in (g(-v), g(v), g(v))], mem, dec)
        for lv in LVALUES:
            for op in ("x++", "++x", "x--", "--x"):
                d = 1 if "+" in op else -1
                r = f32 if t == "float" else float
                vs = [v for v in vals(t) if r(v + d) != 0]
                m, s, x = operand(lv, t, "p", "a")
                exp = []
                for v in vs:
                    n = r(v + d)
                    exp += [g(v if op[0] == "x" else n), g(n)] + ([g(n)] if lv == "refp" else [])
                mem, dec = split([m] + by_ref(lv, "static void F@(%s p) { %s Console.WriteLine(%s); Console.WriteLine(%s); }" % (t, s, op.replace("x", x), x), t))
                yield Case("%s on %s(%s)" % (op, t, lv), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (t, array(t, vs), len(vs)), exp, mem, dec)

CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
       "==": lambda a, b: a == b, "!=": lambda a, b: a != b}

def compare(fa, fb):
    for op, f in CMP.items():
        for ta, tb in PAIRS:
            rt = result_type(ta, tb)
            r = f32 if rt == "float" else float
            A, B = vals(ta), vals(tb)
            m1, s1, x1 = operand(fa, ta, "p", "a")
            m2, s2, x2 = operand(fb, tb, "q", "b")
            fn = "static void F@(%s p, %s q) { %s %s Console.WriteLine(%s %s %s); if (%s %s %s) Console.WriteLine(1); else Console.WriteLine(0); }" % (ta, tb, s1, s2, x1, op, x2, x1, op, x2)
            mem, dec = split([m1, m2, fn])
            exp = []
            for a in A:
                for b in B:
                    c = f(r(a), r(b))
                    exp += ["True" if c else "False", "1" if c else "0"]
            yield Case("%s(%s) %s %s(%s)" % (ta, fa, op, tb, fb), "%s[] A = %s; %s[] B = %s; for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) F@(A[i], B[j]);" % (
                ta, array(ta, A), tb, array(tb, B), len(A), len(B)), exp, mem, dec)

def run(ex, tier):
    deep = tier == "thorough"
    ch = itertools.chain.from_iterable
    fp = [(a, b) for a in FORMS for b in FORMS if deep or a == b or "local" in (a, b)]
    ex.explore("operand places", ch(binary(OPS, a, b) for a, b in fp), batch=40)
    ex.explore("literals", itertools.chain(literals(OPS, False), literals(OPS, True)))
    ex.explore("folded", folded(OPS), batch=40)
    ex.explore("compound assignment", ch(compound(OPS, lv, fb) for lv in LVALUES for fb in (FORMS + ["value"] if deep else ["param", "local", "field", "value"])), batch=40)
    ex.explore("unary", unary(), batch=40)
    ex.explore("comparisons", ch(compare(a, b) for a, b in (fp if deep else [("param", "param"), ("local", "field"), ("elem", "call")])), batch=40)

if __name__ == "__main__":
    main("C04", run, "explicit enumeration of floating operations x types x operand places x values against IEEE arithmetic")
