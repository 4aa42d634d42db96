"""Integer arithmetic."""
from fw import *
from num import *
from forms import *

OPS = ["+", "-", "*", "/", "%"]

def small(t):
    vs = [1, 3, hi(t), lo(t) if INTS[t][1] else 2, (-3 if INTS[t][1] else 100)]
    return sorted(set(vs))

def small0(t):
    return sorted(set(small(t) + [0, 1] + ([-1] if INTS[t][1] else [])))

def blocks(op, ta, tb, A, B):
    """Value blocks whose every pair is defined for the operation."""
    if op in "/%":
        rt = result_type(ta, tb)
        bad = [b for b in B if wrap(b, rt) == 0]
        minus = [b for b in B if INTS[rt][1] and wrap(b, rt) == -1]
        rest = [b for b in B if b not in bad and b not in minus]
        out = [(A, rest)]
        if minus:
            out.append(([a for a in A if wrap(a, rt) != lo(rt)], minus))
        return [(x, y) for x, y in out if x and y]
    return [(A, B)]

def split(ms):
    return ("\n".join(m for m in ms if m and not is_type(m)), "\n".join(m for m in ms if m and is_type(m)))

def binary(ops, values, fa, fb):
    for op in ops:
        for ta in ITYPES:
            for tb in ITYPES:
                m1, s1, x1 = operand(fa, ta, "p", "a")
                m2, s2, x2 = operand(fb, tb, "q", "b")
                bl = blocks(op, ta, tb, values(ta), values(tb))
                body, exp = [], []
                for k, (A, B) in enumerate(bl):
                    body.append("%s[] A%d = %s; %s[] B%d = %s;" % (ta, k, array(ta, A), tb, k, array(tb, B)))
                    body.append("for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) F@(A%d[i], B%d[j]);" % (len(A), len(B), k, k))
                    exp += [str(arith(op, a, ta, b, tb)[0]) for a in A for b in B]
                fn = "static void F@(%s p, %s q) { %s %s Console.WriteLine(%s %s %s); }" % (ta, tb, s1, s2, x1, op, x2)
                mem, dec = split([m1, m2, fn])
                yield Case("%s(%s) %s %s(%s)" % (ta, fa, op, tb, fb), "\n".join(body), exp, mem, dec)

def literals(ops, values, left):
    """One side a literal (folded and fused differently by the compiler)."""
    for op in ops:
        for ta in ITYPES:
            for tb in ITYPES:
                for lit in values(tb if not left else ta):
                    A = values(ta if not left else tb)
                    exp, keep = [], []
                    for a in A:
                        r = arith(op, a, ta, lit, tb) if not left else arith(op, lit, ta, a, tb)
                        if r is not None:
                            exp.append(str(r[0])); keep.append(a)
                    if not keep: continue
                    T = ta if not left else tb
                    e = "p %s %s" % (op, literal(lit, tb)) if not left else "%s %s p" % (literal(lit, ta), op)
                    yield Case("%s %s literal %s" % (T, e, lit), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (T, array(T, keep), len(keep)),
                               exp, "static void F@(%s p) { Console.WriteLine(%s); }" % (T, e))

def folded(ops, values):
    for op in ops:
        for ta in ITYPES:
            for tb in ITYPES:
                body, exp = [], []
                for a in values(ta):
                    for b in values(tb):
                        r = arith(op, a, ta, b, tb)
                        if r is None: continue
                        body.append("Console.WriteLine(%s %s %s);" % (literal(a, ta), op, literal(b, tb)))
                        exp.append(str(r[0]))
                yield Case("folded %s %s %s" % (ta, op, tb), "\n".join(body), exp)

def compound(ops, values, lv, fb):
    for op in ops:
        for ta in ITYPES:
            for tb in ITYPES:
                m1, s1, x1 = operand(lv, ta, "p", "a")
                m2, s2, x2 = operand("local" if fb == "value" else fb, tb, "q", "b")
                body, exp = [], []
                for k, (A, B) in enumerate(blocks(op, ta, tb, values(ta), values(tb))):
                    body.append("%s[] A%d = %s; %s[] B%d = %s;" % (ta, k, array(ta, A), tb, k, array(tb, B)))
                    body.append("for (int i = 0; i < %d; i++) for (int j = 0; j < %d; j++) F@(A%d[i], B%d[j]);" % (len(A), len(B), k, k))
                    exp += [str(wrap(arith(op, a, ta, b, tb)[0], ta)) for a in A for b in B for _ in range(1 + (fb == "value") + (lv == "refp"))]
                fn = "static void F@(%s p, %s q) { %s %s %s Console.WriteLine(%s); }" % (ta, tb, s1, s2, ("Console.WriteLine(%s %s= %s);" if fb == "value" else "%s %s= %s;") % (x1, op, x2), x1)
                mem, dec = split([m1, m2] + by_ref(lv, fn, ta))
                yield Case("%s(%s) %s= %s(%s)" % (ta, lv, op, tb, fb), "\n".join(body), exp, mem, dec)

def compound_literals(ops, values):
    for op in ops:
        for ta in ITYPES:
            for tb in ITYPES:
                for lit in values(tb):
                    keep = [a for a in values(ta) if arith(op, a, ta, lit, tb) is not None]
                    exp = [str(wrap(arith(op, a, ta, lit, tb)[0], ta)) for a in keep]
                    if keep:
                        yield Case("%s %s= %s" % (ta, op, literal(lit, tb)), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (ta, array(ta, keep), len(keep)),
                                   exp, "static void F@(%s p) { %s x = p; x %s= %s; Console.WriteLine(x); }" % (ta, ta, op, literal(lit, tb)))

def incdec(values):
    for t in ITYPES:
        for lv in LVALUES:
            for op in ("x++", "++x", "x--", "--x"):
                m, s, x = operand(lv, t, "p", "a")
                d = 1 if "+" in op else -1
                exp = []
                for v in values(t):
                    n = wrap(v + d, t)
                    exp += [str(v if op[0] == "x" else n), str(n)] + ([str(n)] if lv == "refp" else [])
                e = op.replace("x", x)
                fn = "static void F@(%s p) { %s Console.WriteLine(%s); Console.WriteLine(%s); }" % (t, s, e, x)
                mem, dec = split([m] + by_ref(lv, fn, t))
                vs = values(t)
                yield Case("%s on %s(%s)" % (op, t, lv), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (t, array(t, vs), len(vs)), exp, mem, dec)

def unary(values):
    for t in ITYPES:
        for f in FORMS:
            for op in ("-", "+"):
                if op == "-" and t == "ulong": continue
                rt = promote(t)
                if op == "-" and t == "uint": rt = "long"
                m, s, x = operand(f, t, "p", "a")
                vs = values(t)
                exp = [str(wrap(-v if op == "-" else v, rt)) for v in vs]
                fn = "static void F@(%s p) { %s Console.WriteLine(%s%s); }" % (t, s, op, x)
                mem, dec = split([m, fn])
                yield Case("%s %s(%s)" % (op, t, f), "%s[] A = %s; for (int i = 0; i < %d; i++) F@(A[i]);" % (t, array(t, vs), len(vs)), exp, mem, dec)

def run(ex, tier):
    deep = tier == "thorough"
    rich = lambda t: bounds(t, deep)
    ex.explore("locals, boundary values", binary(OPS, rich, "local", "local"), batch=16)
    ex.explore("params, boundary values", binary(OPS, bounds, "param", "param"), batch=16)
    pairs = [(fa, fb) for fa in FORMS for fb in FORMS
             if deep or fa == fb or fa in ("local", "elem") or fb in ("local", "elem")]
    ex.explore("operand places", itertools.chain.from_iterable(binary(OPS, small, fa, fb) for fa, fb in pairs),
               opts=(0,) if not deep else (0, 2), batch=80)
    ex.explore("literal right", literals(OPS, bounds if deep else small0, False))
    ex.explore("literal left", literals(OPS, bounds if deep else small0, True))
    ex.explore("compound assignment of literals", compound_literals(OPS, small0))
    ex.explore("folded", folded(OPS, small0))
    ex.explore("compound assignment", itertools.chain.from_iterable(
        compound(OPS, small, lv, fb) for lv in LVALUES for fb in (FORMS + ["value"] if deep else ["param", "local", "field", "value"])), batch=80)
    ex.explore("increment, decrement", incdec(bounds))
    ex.explore("unary", unary(bounds))

if __name__ == "__main__":
    main("C01", run, "explicit enumeration of operations x types x operand places x boundary values, checked against a modular-arithmetic reference model")
