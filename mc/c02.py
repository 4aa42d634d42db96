"""Bitwise operations and shifts."""
from fw import *
from num import *
from forms import *
from c01 import binary, literals, folded, compound, split

OPS = ["&", "|", "^"]

def vals(t):
    b, s = INTS[t]
    m = (1 << b) - 1
    vs = [0, 1, m, 0x55 * (m // 255), 0xAA * (m // 255), 0xF0 * (m // 255), 1 << (b - 1), m >> 1, 0x0FF0 & m, 6]
    return sorted(set(wrap(v, t) for v in vs))

def small(t):
    b, s = INTS[t]
    m = (1 << b) - 1
    return sorted(set(wrap(v, t) for v in (5, m, 0x55 * (m // 255), 0xAA * (m // 255), 1 << (b - 1))))

def complement():
    for t in ITYPES:
        for f in FORMS:
            m, s, x = operand(f, t, "p", "a")
            vs = vals(t)
            exp = [str(wrap(~v, promote(t))) for v in vs]
            fn = "static void F@(%s p) { %s Console.WriteLine(~%s); }" % (t, s, x)
            mem, dec = split([m, fn])
            yield Case("~%s(%s)" % (t, f), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (t, array(t, vs), len(vs)), exp, mem, dec)
        body, exp = [], []
        for v in vals(t):
            body.append("Console.WriteLine(~%s);" % literal(v, t)); exp.append(str(wrap(~v, promote(t))))
        yield Case("~%s literal" % t, "\n".join(body), exp)

def shv(op, v, t, n):
    pt = promote(t)
    v = v << n if op == "<<" else v >> n
    return wrap(v, pt)

COUNT = ["sbyte", "byte", "short", "ushort", "int"]

def shifts(forms, deep):
    for op in ("<<", ">>"):
        for t in ITYPES:
            w = INTS[promote(t)][0]
            for tc in COUNT if deep else ("int", "byte"):
                if t == "uint": pass
                for fa, fb in forms:
                    m1, s1, x1 = operand(fa, t, "p", "a")
                    m2, s2, x2 = operand(fb, tc, "q", "b")
                    vs, ns = vals(t), list(range(w))
                    exp = [str(shv(op, v, t, n)) for v in vs for n in ns]
                    fn = "static void F@(%s p, %s q) { %s %s Console.WriteLine(%s %s %s); }" % (t, tc, s1, s2, x1, op, x2)
                    mem, dec = split([m1, m2, fn])
                    yield Case("%s(%s) %s %s(%s)" % (t, fa, op, tc, fb),
                               "%s[] A = %s; %s[] B = %s; for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) F@(A[i], B[j]);" % (
                                   t, array(t, vs), tc, array(tc, ns), len(vs), len(ns)), exp, mem, dec)

def shift_literals():
    for op in ("<<", ">>"):
        for t in ITYPES:
            w = INTS[promote(t)][0]
            for n in range(w):
                vs = vals(t)
                exp = [str(shv(op, v, t, n)) for v in vs]
                body = "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (t, array(t, vs), len(vs))
                body += "".join("Console.WriteLine(%s %s %d);" % (literal(v, t), op, n) for v in vs)
                yield Case("%s %s literal %d" % (t, op, n), body, exp + exp, "static void F@(%s p) { Console.WriteLine(p %s %d); }" % (t, op, n))

def shift_assign():
    for op in ("<<", ">>"):
        for t in ITYPES:
            w = INTS[promote(t)][0]
            for lv in LVALUES:
                m, s, x = operand(lv, t, "p", "a")
                vs, ns = vals(t), list(range(w))
                exp = [str(wrap(shv(op, v, t, n), t)) for v in vs for n in ns for _ in range(1 + (lv == "refp"))]
                fn = "static void F@(%s p, int q) { %s %s %s= q; Console.WriteLine(%s); }" % (t, s, x, op, x)
                mem, dec = split([m] + by_ref(lv, fn, t))
                yield Case("%s(%s) %s= int" % (t, lv, op), "%s[] A = %s; for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) F@(A[i], j);" % (
                    t, array(t, vs), len(vs), len(ns)), exp, mem, dec)

def run(ex, tier):
    deep = tier == "thorough"
    chain = itertools.chain.from_iterable
    ex.explore("locals", binary(OPS, lambda t: bounds(t, deep), "local", "local"), batch=16)
    pairs = [(a, b) for a in FORMS for b in FORMS if deep or a == b or "local" in (a, b)]
    ex.explore("operand places", chain(binary(OPS, small, a, b) for a, b in pairs), opts=(0, 2) if deep else (0,), batch=80)
    ex.explore("literal right", literals(OPS, vals, False))
    ex.explore("literal left", literals(OPS, vals, True))
    ex.explore("folded", folded(OPS, small))
    ex.explore("compound assignment", chain(compound(OPS, small, lv, fb) for lv in LVALUES for fb in (FORMS + ["value"] if deep else ["param", "local", "value"])), batch=80)
    ex.explore("complement", complement())
    ex.explore("shifts", shifts([(a, b) for a in FORMS for b in FORMS] if deep else [(f, f) for f in FORMS], deep), batch=16)
    ex.explore("shifts by literals", shift_literals())
    ex.explore("shift assignments", shift_assign(), batch=16)

if __name__ == "__main__":
    main("C02", run, "explicit enumeration of bitwise operations and shifts x types x places x bit patterns x all counts, against a reference model")
