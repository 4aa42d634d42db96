"""C23: constants, enums, properties and constructors mean what their declarations say."""
from fw import *
import kinds
from kinds import T, val, show, many
from num import ITYPES, INTS, lo, hi, wrap, convert, literal, show as nshow, NTYPES

# ---------------------------------------------------------------- enums

BASES = ["", "sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong"]

def members(n):
    """All sequences of n initialisers: none, a number, a negative number, another member (earlier or later), a member of another enum."""
    opts = ["", "7", "-3", "other"] + ["m%d" % i for i in range(n)]
    for c in itertools.product(opts, repeat=n):
        if any(c[i] == "m%d" % i for i in range(n)): continue
        yield c

def enum_values(c):
    """Values of the members, or None for a circular definition."""
    memo, busy = {}, set()
    def v(i):
        if i in memo: return memo[i]
        if i in busy: raise RecursionError
        busy.add(i)
        x = c[i]
        r = (v(i - 1) + 1 if i else 0) if x == "" else 21 if x == "other" else v(int(x[1:])) if x[0] == "m" else int(x)
        busy.discard(i); memo[i] = r
        return r
    try: return [v(i) for i in range(len(c))]
    except RecursionError: return None

def enums(deep):
    """Every member read as a constant, through a variable, as a field, element, parameter, result, case and box."""
    for n in (1, 2, 3) if deep else (1, 2, 3):
        for k, c in enumerate(members(n)):
            vs = enum_values(c)
            if vs is None: continue
            bases = BASES if deep or n < 3 else (BASES[k % 9],)
            for b in bases:
                if b in ("byte", "ushort", "uint", "ulong") and min(vs) < 0: continue
                init = lambda x: "" if x == "" else " = " + ("O@.Y" if x == "other" else x)
                other = "public enum O@ { X = 20, Y }\n"
                decl = (other if k & 1 else "") + "public enum E@%s { %s }\n" % (" : " + b if b else "", ", ".join("m%d%s" % (i, init(x)) for i, x in enumerate(c))) + ("" if k & 1 else other)
                decl += "public class H@ { public E@ f; public E@ P { get; set; } public static E@ Id(E@ e) { return e; } public static long L(E@ e) { return (long)e; } }\n"
                body, exp = "H@ h = new H@(); E@[] a = new E@[%d]; Console.WriteLine((long)h.f); Console.WriteLine((long)a[0]);" % n, ["0", "0"]
                for i, v in enumerate(vs):
                    m = "E@.m%d" % i
                    body += "{ long w = %s; E@ e = %s; h.f = e; h.P = %s; a[%d] = %s; object o = (object)e;" % (literal(v, "long"), m, m, i, m)
                    for x in ("%s", "e", "h.f", "h.P", "a[%d]" % i, "H@.Id(%s)", "H@.Id(e)", "(E@)o", "(E@)w"):
                        body += "Console.WriteLine((long)%s);" % (x % m if "%" in x else x); exp.append(str(v))
                    body += "Console.WriteLine(H@.L(%s)); Console.WriteLine(H@.L(h.f));" % m; exp += [str(v)] * 2
                    for j, w in enumerate(vs):
                        body += "Console.WriteLine(e == E@.m%d); Console.WriteLine(E@.m%d != e);" % (j, j); exp += [str(v == w), str(v != w)]
                    body += "}"
                yield Case("enum %s: %s" % (b, ", ".join(x or "-" for x in c)), body, exp, "", decl)

def enum_casts(deep):
    """From every underlying type to every numeric type and back, at the bounds, in every place."""
    for b in ITYPES:
        vals = sorted({0, 1, lo(b), lo(b) + 1, hi(b), hi(b) - 1, hi(b) // 2 + 1, 100 % (hi(b) + 1)} - ({lo("long"), lo("int")} if b in ("long", "int") else set()))
        for t in NTYPES:
            for v in vals:
                got = convert(v, b, t)
                body = "%s x = %s; E@ e = (E@)x; H@ h = new H@(); h.f = e; E@[] a = new E@[2]; a[1] = e; object o = (object)e;" % (b, literal(v, b))
                exp = []
                for x in ("(E@)x", "e", "h.f", "a[1]", "H@.Id(e)", "(E@)o", "E@.K", "Ca@.Q"):
                    body += "Console.WriteLine((%s)%s); { %s y = (%s)%s; Console.WriteLine(y); }" % (t, x, t, t, x)
                    exp += [nshow(got, t)] * 2
                # and from the numeric type back
                if t in ITYPES:
                    back = convert(got, t, b)
                    body += "{ %s z = %s; E@ q = (E@)z; Console.WriteLine((%s)q); h.f = (E@)z; Console.WriteLine((%s)h.f); Console.WriteLine((%s)(E@)z); }" % (t, literal(got, t) if got not in (lo("long"), lo("int")) else "(%s)e" % t, b, b, b)
                    exp += [nshow(back, b)] * 3
                decl = "public enum E@ : %s { Z, K = %s }\npublic class Ca@ { public const E@ Q = E@.K; }\npublic class H@ { public E@ f; public static E@ Id(E@ e) { return e; } }\n" % (b, enum_literal(v, b))
                yield Case("enum cast %s=%d to %s" % (b, v, t), body, exp, "", decl)

def enum_literal(v, b):
    return str(v) + {"uint": "u", "long": "L", "ulong": "uL"}.get(b, "")

def enum_switch(deep):
    """Switch over every enum variable: each label, default, any order of labels."""
    for b in BASES[:7]:
        for perm in itertools.permutations(range(3)):
            for default in (None, 0, 3):
                labels = ["case E@.m%d: Console.WriteLine(%d); break;" % (i, 10 + i) for i in perm]
                if default is not None: labels.insert(default, "default: Console.WriteLine(99); break;")
                body, exp = "", []
                for i, v in enumerate((0, 4, 5, 2)):
                    body += "{ E@ e = (E@)(%s); switch (e) { %s } Console.WriteLine(%d); }" % (literal(v, b or "int"), " ".join(labels), i)
                    exp += ([str(10 + i)] if i < 3 else ["99"] if default is not None else []) + [str(i)]
                yield Case("enum switch %s %s default %s" % (b, perm, default), body, exp, "", "public enum E@%s { m0, m1 = 4, m2 }\n" % (" : " + b if b else ""))

# ---------------------------------------------------------------- constants

def graphs(n):
    """Every acyclic way in which n constants are defined by each other, written in every order, in one or two classes."""
    def forms(i): return [("lit", i * 7 + 3)] + [("add", j) for j in range(n) if j != i] + [("mul", j) for j in range(n) if j != i] + [("neg", j) for j in range(n) if j != i]
    for c in itertools.product(*[forms(i) for i in range(n)]):
        memo = {}
        def v(i, busy=()):
            if i in busy: raise RecursionError
            k, x = c[i]
            if k == "lit": return x
            w = v(x, busy + (i,))
            return w + i + 1 if k == "add" else w * 3 if k == "mul" else -w
        try: vs = [v(i) for i in range(n)]
        except RecursionError: continue
        yield c, vs

def constants(deep):
    for n in (1, 2, 3):
        for q, (c, vs) in enumerate(graphs(n)):
            orders = list(itertools.permutations(range(n)))
            for o in orders if deep else (orders[q % len(orders)],):
                for split in itertools.product((0, 1), repeat=n) if deep else (tuple((q >> i) & 1 for i in range(n)),):
                    for typ in ("int", "long", "short", "double") if deep else (("int", "long", "short", "double")[q % 4],):
                        conv = "(short)(%s)" if typ == "short" else "%s"
                        name = lambda j, frm: ("" if split[j] == split[frm] and q & 1 else "C%d_@." % split[j]) + "k%d" % j
                        def rhs(i):
                            k, x = c[i]
                            return conv % (str(x) if k == "lit" else "%s + %d" % (name(x, i), i + 1) if k == "add" else "%s * 3" % name(x, i) if k == "mul" else "-%s" % name(x, i))
                        decl = ""
                        for cl in (0, 1):
                            decl += "public class C%d_@ { %s public int z; }\n" % (cl, " ".join("public const %s k%d = %s;" % (typ, i, rhs(i)) for i in o if split[i] == cl))
                        body, exp = "", []
                        for i in range(n):
                            r = "C%d_@.k%d" % (split[i], i)
                            body += "Console.WriteLine(%s); { %s x = %s; Console.WriteLine(x); const %s y = %s; Console.WriteLine(y); Console.WriteLine(%s + y); }" % (r, typ, r, typ, r, r)
                            exp += [str(vs[i])] * 3 + [str(vs[i] * 2)]
                        yield Case("constants %s order %s split %s %s" % (c, o, split, typ), body, exp, "", decl)

def constant_uses(deep):
    """A constant of every kind, as field of a class or local, in every place an expression can stand."""
    for k in ("sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "bool", "char", "string", "En"):
        for i in range(2):
            e, ls = val(k, i)
            for where in ("class", "base", "local", "own"):
                t = T(k)
                nm = {"class": "Ca@.K", "base": "D@.K", "local": "K", "own": "kk@"}[where]
                decl = "public class Ca@ { public const %s K = %s; }\npublic class D@ : Ca@ { public %s Get() { return K; } }\npublic class H@ { public %s f; public static %s Id(%s x) { return x; } }\n" % (t, e, t, t, t, t)
                pre = "const %s K = %s;" % (t, e) if where == "local" else ""
                mem = "const %s kk@ = %s;\n" % (t, e) if where == "own" else ""
                body = pre + show(k, nm) + "%s x = %s; " % (t, nm) + show(k, "x") + "H@ h = new H@(); h.f = %s; " % nm + show(k, "h.f") + "%s[] a = new %s[] { %s, %s }; " % (t, t, nm, nm) + show(k, "a[1]") + show(k, "H@.Id(%s)" % nm) + show(k, "new D@().Get()")
                exp = ls * 6
                if k != "string":
                    body += "object o = (object)%s; " % nm + show(k, "(%s)o" % t); exp = exp + ls
                yield Case("constant %s %s %d" % (k, where, i), body, exp, mem, decl)
    for v in range(0, 5):        # constants where the compiler needs one
        for where in ("class", "local"):
            nm = "Ca@.K" if where == "class" else "K"
            body = ("const int K = %d;" % v if where == "local" else "")
            body += "int[] a = new int[%s + 1]; Console.WriteLine(a.Length); a[%s] = 5; Console.WriteLine(a[%d]); int s = %d; switch (s) { case %s: Console.WriteLine(1); break; default: Console.WriteLine(2); break; } for (int i = 0; i < %s; i++) Console.WriteLine(i); if (%s == %d) Console.WriteLine(3); int[,] m = new int[%s + 1, 2]; Console.WriteLine(m.Length);" % (nm, nm, v, v, nm, nm, nm, v, nm)
            yield Case("constant %d where one is needed, %s" % (v, where), body, [str(v + 1), "5", "1"] + [str(i) for i in range(v)] + ["3", str((v + 1) * 2)], "", "public class Ca@ { public const int K = %d; }\n" % v)

# ---------------------------------------------------------------- properties

LOGGER = "public class Lg { public string t; public int n; public int T(int k) { n = n * 10 + k; return k; } }\n"

def properties(deep):
    """Properties of every kind of value in every form: written, read, written again, copied, on classes and structs, through base classes and interfaces."""
    forms = ("full", "auto", "virtual", "override", "interface", "base", "struct", "hidden")
    for k in kinds.ALL:
        t = T(k)
        for form in forms:
            full = "get { return f; } set { f = value; }"
            D = {"full": "public class Ca@ { %s f; public %s P { %s } }\n" % (t, t, full),
                 "auto": "public class Ca@ { public int pad; public %s P { get; set; } public int pad2; }\n" % t,
                 "struct": "public struct Ca@ { public %s f; public %s P { %s } }\n" % (t, t, full),
                 "virtual": "public class Ca@ { %s f; public virtual %s P { %s } }\n" % (t, t, full),
                 "override": "public class B@ { public virtual %s P { get { %s } set { } } }\npublic class Ca@ : B@ { %s f; public override %s P { %s } }\n" % (t, "return %s;" % val(k, 2)[0], t, t, full),
                 "interface": "public interface I@ { %s P { get; set; } }\npublic class Ca@ : I@ { %s f; public %s P { %s } }\n" % (t, t, t, full),
                 "base": "public class B@ { %s f; public %s P { %s } }\npublic class Ca@ : B@ { public int z; }\n" % (t, t, full),
                 "hidden": "public class B@ { public %s P { get { return %s; } set { } } }\npublic class Ca@ : B@ { %s f; public new %s P { %s } }\n" % (t, val(k, 2)[0], t, t, full)}[form]
            v = {"override": "B@", "interface": "I@", "base": "B@"}.get(form, "Ca@")
            (e0, l0), (e1, l1) = val(k, 0), val(k, 1)
            body = "%s c = new Ca@(); c.P = %s; %s %s x = c.P; c.P = %s; %s %s c.P = x; %s" % (v, e0, show(k, "c.P"), t, e1, show(k, "x"), show(k, "c.P"), show(k, "c.P"))
            exp = l0 + l0 + l1 + l0
            body += "{ Ca@ d = new Ca@(); d.P = c.P; c.P = %s; %s %s }" % (e1, show(k, "d.P"), show(k, "c.P")); exp = exp + l0 + l1
            yield Case("property %s %s" % (k, form), body, exp, "", D)

def property_effects(deep):
    """Getter and setter run exactly once each, in order, with the value, wherever the property is used."""
    C = "public class Ca@ { public Lg l; int f; public Ca@(Lg x) { l = x; } public int P { get { l.T(1); return f; } set { l.T(2); f = value; l.T(value); } } public Ca@ Me { get { l.T(3); return this; } } public bool B { get { l.T(6); return f == 4; } } public int[] A { get { l.T(7); return a; } } public int[] a; public int R { get { l.T(8); return f * 2; } } public int M(int x, int y) { l.T(9); return x - y; } }\n"
    uses = {"c.P = 4;": ("24", []), "c.P = o.T(5);": ("525", []), "c.Me.P = o.T(5);": ("3525", []), "c.Me.Me.P = 4;": ("3324", []), "int x = c.P; W.int_(x);": ("1", ["0"]), "W.int_(c.P + c.P);": ("11", ["0"]), "c.P = c.P + 4;": ("124", []),
            "c.P = c.Me.P + o.T(5);": ("31525", []), "W.int_(o.T(5) - c.P);": ("51", ["5"]), "W.int_(c.P - o.T(5));": ("15", ["-5"]), "if (c.B) W.int_(1); else W.int_(2);": ("6", ["2"]), "if (c.B && c.P == 1) W.int_(1);": ("6", []), "if (c.B || c.P == 0) W.int_(1);": ("61", ["1"]),
            "W.int_(c.B ? c.P : c.R);": ("68", ["0"]), "c.A[1] = 5; W.int_(c.a[1]);": ("7", ["5"]), "W.int_(c.A[1] + c.Me.A[2]);": ("737", ["25"]), "W.int_(c.M(c.P, c.R));": ("189", ["0"]), "W.int_(c.Me.M(o.T(5), c.P));": ("3519", ["5"]),
            "for (int i = c.P; i < 2; i++) o.T(5);": ("155", []), "while (c.P < 2) { o.T(5); c.P = 4; }": ("15241", []), "switch (c.P) { case 0: o.T(5); break; default: o.T(4); break; }": ("15", []), "object b = c.P; W.int_((int)b);": ("1", ["0"]), "long g = c.P; W.long_(g);": ("1", ["0"]), "double g = c.R; W.double_(g);": ("8", ["0"]),
            "int y = -c.P; W.int_(y);": ("1", ["0"]), "bool z = !c.B; W.bool_(z);": ("6", ["True"]), "c.P = (int)(long)c.R;": ("820", []), "int[] q = new int[c.P + 2]; W.int_(q.Length);": ("1", ["2"]), "c.P = true ? c.R : c.P;": ("820", []), "W.int_(c.A.Length);": ("7", ["3"]), 
            "try { c.P = o.T(5); } finally { o.T(1); }": ("5251", []), "return;": ("", []), "Lg w = c.Me.l; w.T(1);": ("31", []), "c.P = c.M(c.P, c.P) + 4;": ("11924", [])}
    for u, (log, ls) in uses.items():
        for pre, where in (("", "direct"), ("for (int k = 0; k < 1; k++) { %s }", "loop"), ("if (o.n == 0) { %s }", "branch"), ("try { %s } catch (Exception e) { W.int_(77); }", "try")):
            stm = (pre or "%s") % u
            body = "Lg o = new Lg(); Ca@ c = new Ca@(o); c.a = new int[] { 11, 12, 13 }; S@(o, c); W.int_(o.n);"
            yield Case("property effects %s %s" % (u, where), body, ls + [log or "0"], "static void S@(Lg o, Ca@ c) { %s }\n" % stm, C)

# ---------------------------------------------------------------- constructors

def constructors(deep):
    """All sets of constructors by arity and type; each new picks its own; fields not set are zero; arguments and body run in order."""
    SIG = {"": "", "i": "int", "l": "long", "d": "double", "r": "Rf", "s": "S3", "ii": "int,int", "il": "int,long", "li": "long,int", "b": "bool", "o": "En"}
    ARGS = {"int": ("o.T(4)", 4), "long": ("(long)o.T(5)", 5), "double": ("(double)o.T(6)", 6), "Rf": ("new Rf(o.T(7))", 7), "S3": ("new S3((byte)1, (short)o.T(8), (sbyte)3)", 8), "bool": ("(o.T(3) == 3)", 3), "En": ("(En)o.T(5)", 5)}
    for size in (1, 2, 3) if deep else (1, 2):
        for sigs in itertools.combinations(SIG, size):
            for kind in ("class", "struct"):
                if kind == "struct" and "" in sigs: continue
                cs, body, exp = "", "Lg o = new Lg();", []
                for n, s in enumerate(sigs):
                    ts = [x for x in SIG[s].split(",") if x]
                    cs += "public Ca@(%s) { id = %d; l = o; rest = 0; q = null; if (o.n >= 0) o.T(%d); } " % (", ".join(["Lg o"] + ["%s p%d" % (x, j) for j, x in enumerate(ts)]), n + 1, n + 1)
                    body += "{ o.n = 0; Ca@ c = new Ca@(%s); W.int_(c.id); W.int_(o.n); W.int_(c.rest); W.Rf_(c.q); W.int_(new Ca@(%s).id); }" % (", ".join(["o"] + [ARGS[x][0] for x in ts]), ", ".join(["o"] + [ARGS[x][0] for x in ts]))
                    exp += [str(n + 1), "".join(str(ARGS[x][1]) for x in ts) + str(n + 1), "0", "null", str(n + 1)]
                yield Case("constructors %s of %s" % (",".join(x or "-" for x in sigs), kind), body, exp, "", "public %s Ca@ { public int id; public int rest; public Rf q; public Lg l; %s}\n" % (kind, cs))

def constructor_fields(deep):
    """A constructor stores any kinds of parameters in fields of those kinds, in any order, and calls its own methods."""
    for a in kinds.ALL:
        for b in kinds.ALL:
            for kind in ("class", "struct"):
                for order in (0, 1):
                    (ea, la), (eb, lb) = val(a, 0), val(b, 1)
                    asg = ["fa = a;", "this.fb = b;"][::-1 if order else 1]
                    body = "Ca@ c = new Ca@(%s, %s); %s %s Ca@ d = new Ca@(%s, %s); %s %s %s" % (ea, eb, show(a, "c.fa"), show(b, "c.fb"), val(a, 1)[0], val(b, 0)[0], show(a, "d.fa"), show(b, "d.fb"), show(a, "c.fa"))
                    yield Case("constructor fields %s %s %s %d" % (a, b, kind, order), body, la + lb + val(a, 1)[1] + val(b, 0)[1] + la, "", "public %s Ca@ { public %s fa; public %s fb; public Ca@(%s a, %s b) { %s } }\n" % (kind, T(a), T(b), T(a), T(b), " ".join(asg)))

def construction(deep):
    """Every field of a new object or struct has the default of its type, also after other objects of its size."""
    ks = [k for k in kinds.ALL if kinds.default(k) is not None]
    for k in ks:
        for how in ("new", "array", "local struct", "field struct", "default", "ctor"):
            D = "public class Ca@ { public int a; public %s f; public long z; public int[] pad; }\npublic struct V@ { public %s f; public int b; }\npublic class Q@ { public V@ v; public %s f; public Q@() { } }\n" % (T(k), T(k), T(k))
            e, ls = {"new": ("new Ca@().f", 0), "array": ("(new %s[3])[1]" % T(k), 0), "local struct": ("v.f", 0), "field struct": ("new Q@().v.f", 0), "default": ("default(%s)" % T(k), 0), "ctor": ("new Q@().f", 0)}[how]
            pre = "V@ v = new V@();" if how == "local struct" else ""
            if how == "default" and k in ("S1", "S3", "S12", "SN", "SR"): continue
            if how == "array":
                if k == "arr": continue
                pre, e = "%s[] w = new %s[3];" % (T(k), T(k)), "w[1]"
            body = "for (int i = 0; i < 3; i++) { Ca@ g = new Ca@(); g.a = -1; g.z = -1L; g.f = %s; Q@ q = new Q@(); q.f = %s; } %s %s" % (val(k, 0)[0], val(k, 0)[0], pre, show(k, e))
            yield Case("default of %s by %s" % (k, how), body, kinds.default(k), "", D)

def run(ex, tier):
    deep = tier == "thorough"
    ex.extra = kinds.DECLS + LOGGER
    ex.explore("enum members", enums(deep))
    ex.explore("enum casts", enum_casts(deep))
    ex.explore("enum switch", enum_switch(deep))
    ex.explore("constants defined by constants", constants(deep))
    ex.explore("uses of constants", constant_uses(deep))
    ex.explore("properties", properties(deep))
    ex.explore("property effects", property_effects(deep))
    ex.explore("choice of constructors", constructors(deep))
    ex.explore("constructors storing fields", constructor_fields(deep))
    ex.explore("default values", construction(deep))

if __name__ == "__main__":
    main("C23", run, "exhaustive enumeration of declarations (members and initialisers of enums, graphs of constants, forms of properties, sets of constructors) x uses, executed on the real compiler and VM, every output line compared with a reference model of the declarations")
