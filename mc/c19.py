"""C19: literals denote their value and type, comments and white space separate and mean nothing, tokens are read the longest way."""
from fw import *
import struct

KEYWORDS = "abstract as base bool break byte case catch char class const continue default do double else enum false finally float for if in int interface internal is long namespace new null object out override private protected public ref return sbyte sealed short static string struct switch this throw true try typeof uint ulong ushort using var virtual void while add get set global remove where value".split()
OVER = "static void F(int a) { Console.Write(\"i\"); } static void F(uint a) { Console.Write(\"u\"); } static void F(long a) { Console.Write(\"l\"); } static void F(ulong a) { Console.Write(\"ul\"); } static void F(float a) { Console.Write(\"f\"); } static void F(double a) { Console.Write(\"d\"); } static void F(char a) { Console.Write(\"c\"); } static void F(bool a) { Console.Write(\"b\"); } static void F(string a) { Console.Write(\"s\"); }"
LETTER = {"int": "i", "uint": "u", "long": "l", "ulong": "ul", "float": "f", "double": "d"}

def itype(v, suffix, radix):
    s = suffix.lower() + ("u" if radix in ("0x", "0X") and not suffix.lower().endswith("u") else "")      # april: hexadecimal literals are unsigned, decimal ones int, long or ulong
    for t, m in (("int", 31), ("uint", 32), ("long", 63), ("ulong", 64)):
        if radix == "" and not s and t == "uint": continue
        if "u" in s and t[0] != "u" or "l" in s and "long" not in t: continue
        if v < 1 << m: return t

def integers(deep):
    vals = set()
    for b in range(65):
        for d in (-1, 0, 1): vals.add((1 << b) + d)
    for k in range(20): vals |= {10 ** k, 10 ** k - 1, 10 ** k + 1}
    vals |= {0, 7, 8, 9, 15, 16, 123456789, 1234567890123456789, 0xDEADBEEF, 0xFEDCBA9876543210, 0x0123456789ABCDEF}
    if deep:
        for b in range(64):
            for c in range(b): vals.add((1 << b) | (1 << c))
    vals = sorted(v for v in vals if 0 <= v < 1 << 64)
    radix = {"": "%d", "0x": "%x", "0X": "%X", "0": "%o", "0b": "%s"}
    for v in vals:
        for p, f in radix.items():
            if p == "0" and v == 0: continue
            text = p + (bin(v)[2:] if p == "0b" else f % v)
            for s in ("", "u", "U", "l", "L", "ul", "UL", "uL", "Lu", "LU", "lU") if deep or v in (0, 1, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807) else ("", "L", "UL"):
                t = itype(v, s, p)
                if t is None: continue
                body = "Console.WriteLine(%s%s); F@(%s%s); var x = %s%s; Console.WriteLine(x); Console.WriteLine(x == %s%s);" % ((text, s) * 4)
                exp = [str(v), LETTER[t] + str(v), "True"]
                if v and t in ("int", "long"):
                    body += " Console.WriteLine(-%s%s); Console.WriteLine(0-%s%s);" % (text, s, text, s); exp += [str(-v), str(-v)]
                yield Case("integer %s%s" % (text, s), body, exp, OVER.replace("F(", "F@("))

def g6(v): 
    return "%.6g" % v

def f32(v): return struct.unpack("f", struct.pack("f", v))[0]

def floats(deep):
    mant = ["0.0", "0.5", "1.0", "1.5", "2.25", "10.0", "123.456", "0.001", "0.125", "99999.9", "1.", "7.", "3.14159", "1234567.0", "0.1", "0.2", "0.3", "12345.678", "1.000001", "9.99999"]
    if deep: mant += ["%d.%02d" % (a, b) for a in (0, 1, 9, 10, 99) for b in range(100)]
    exps = ["", "e+0", "e-0", "e+1", "e-1", "e+2", "E-2", "E+5", "e-5", "e+10", "e-10", "e0", "e1", "E2", "e7", "e+07", "e+30", "e-30"]
    for m in mant:
        for e in exps:
            for s in ("", "f", "F"):
                v = float((m + "0" if m.endswith(".") else m) + e)
                t = "double" if not s else "float"
                if s: v = f32(v)
                body = "Console.WriteLine(%s%s%s); F@(%s%s%s); double x = %s%s%s; Console.WriteLine(x);" % ((m, e, s) * 3)
                yield Case("float %s%s%s" % (m, e, s), body, [g6(v), LETTER[t] + g6(v)], OVER.replace("F(", "F@("))

ESC = {"\\n": "\n", "\\t": "\t", "\\\\": "\\", "\\'": "'", '\\"': '"', "\\r": "\r", "\\a": "\a", "\\b": "\b", "\\f": "\f", "\\v": "\v", "\\0": "\0"}
def chars():
    for c in [chr(i) for i in range(32, 127)] + list(ESC):
        if c in ("'", "\\"): continue
        v = ESC.get(c, c)
        lit = "'%s'" % c.replace("@", "\x02")
        show = "" if v in "\n\r\f\v\b\a\t\0" else v
        body = "char x = %s; Console.WriteLine((int)x); Console.WriteLine((int)%s); char[] a = new char[] { 'a', %s, 'b' }; Console.WriteLine((int)a[1]); Console.WriteLine(x == %s); Console.WriteLine(x == '~'); F@(%s);" % ((lit,) * 5)
        exp = [str(ord(v))] * 3 + ["True", "True" if v == "~" else "False", "c"]
        if show: body += " Console.Write(\"[\"); Console.Write(%s); Console.WriteLine(\"]\");" % lit; exp[-1] += "[%s]" % show
        else: body += " Console.WriteLine(\"\");"
        yield Case("char %s" % lit, body, exp, OVER.replace("F(", "F@("))

def strings(n):
    al = ["a", " ", "\\\\", '\\"', "'", "/", "*", "//", "/*", ";", "{", "}", "@", "\\t", "0", "%", "#", "\\'", "\\f", "?"]
    for k in range(n + 1):
        for cs in itertools.product(al, repeat=k):
            s = "".join(cs)
            v = "".join(ESC.get(c, c) for c in cs)
            e = s.replace("@", "\x02")
            body = "Console.WriteLine(\"[\"); Console.WriteLine(\"%s\"); string t = \"%s\"; Console.Write(t); Console.WriteLine(\"%s]\");" % (e, e, e)
            yield Case("string %s" % s, body, ["[", v, v + v + "]"])
            if '"' not in s:
                body = "Console.WriteLine(\"[\"); Console.WriteLine(\x02\"%s\"); Console.WriteLine(\"|\");" % e
                yield Case("verbatim %s" % s, body, ["[", s, "|"])

# ---------------------------------------------------------------- separators

PROGRAM = [  # (statements as tokens, output)
    ("int x = 10 ; int [ ] a = new int [ ] { 1 , 2 } ; x += a [ 1 ] * ( x - 3 ) ; if ( x >= 4 && ! ( x == 5 ) ) { x ++ ; } else x = 3 ; for ( int i = 0 ; i < 3 ; i ++ ) x = x << 1 ; Console . WriteLine ( x ) ;", ["200"]),
    ("object o = new T@ ( ) ; Console . WriteLine ( o is T@ ) ; T@ q = o as T@ ; q . f = ( int ) 0x1F ; Console . WriteLine ( ( ( T@ ) o ) . f ) ; q . f -= - 3 ; q . f |= 64 ; Console . WriteLine ( q . f ) ;", ["True", "31", "98"]),
    ("int x = 3 ; switch ( x ) { case 1 : x = 4 ; break ; case 3 : x = 5 ; break ; default : break ; } do { x -- ; } while ( x > 2 ) ; Console . WriteLine ( x ) ; while ( true ) { break ; } x = x != 2 ? 1 : 7 ; Console . WriteLine ( x ) ;", ["2", "7"]),
    ("try { throw new Exception ( ) ; } catch ( Exception e ) { Console . WriteLine ( \"c\" ) ; } finally { Console . WriteLine ( 'f' ) ; } int x = ~ 5 ^ 3 ; x >>= 1 ; x %= 2 ; Console . WriteLine ( x ) ; double d = 1.5 ; d *= 2.0 ; d /= 4.0 ; Console . WriteLine ( d ) ;", None),
    ("int y ; G@ ( ref x , out y ) ; Console . WriteLine ( x - y ) ; Console . WriteLine ( x -1 ) ; Console . WriteLine ( x - -1 ) ; bool b = x <= y || x > 1 && false ; Console . WriteLine ( b ) ; const int k = 4 ; var v = k & 6 ; Console . WriteLine ( v ) ;", ["-1", "0", "2", "True", "4"]),
]
SEPS = {" ": " ", "nl": "\n", "tab": "\t", "crlf": "\r\n", "blanks": "   ", "block": "/**/", "block2": " /* c */ ", "line": "//c\n", "line2": " // c ; } */ \n", "lines": "/*a\nb\n*/", "stars": "/***/", "slashes": "/* // */", "quote": "/*\"*/", "apostrophe": "//'\n", "slash": "/*/ */", "crline": "// x\r\n", "two": "/*1*//*2*/", "deep": "/* /* */"}

def tokens(i):
    s, exp = PROGRAM[i]
    s = s.replace("x = 10", "x = 10")
    if exp is None:
        x = (~5 ^ 3) >> 1
        m = abs(x) % 2 * (1 if x >= 0 else -1)
        exp = ["c", "f", str(m), "0.75"]
    ts = s.split()
    if i == 4: ts = "int x = 1 ;".split() + ts
    return ts, exp

MEM = "static void G@(ref int a, out int b) { b = a + 1; }"
DEC = "public class T@ { public int f; }\n"
def word(c): return c.isalnum() or c == "_" or c == "@"
def glue(a, b):
    """whether two tokens may stand together"""
    if word(a[-1]) and word(b[0]): return False
    if a in ("+", "-", "&", "|", "<", ">", "=", "!", "/", "*", "^", "%", "~", "<<", ">>") and b[0] in "+-&|=<>/*": return False
    if a[-1].isdigit() and b[0] == ".": return False
    return True

def tight(ts):
    out = ts[0]
    for a, b in zip(ts, ts[1:]):
        out += ("" if glue(a, b) else " ") + b
    return out

def separators(deep):
    for i in range(len(PROGRAM)):
        ts, exp = tokens(i)
        yield Case("tight %d" % i, tight(ts), exp, MEM, DEC)
        for n, s in SEPS.items():
            yield Case("all %s %d" % (n, i), s.join(ts), exp, MEM, DEC)
            yield Case("around %s %d" % (n, i), s + s.join(ts) + s, exp, MEM, DEC)
        for g in range(1, len(ts)):
            for n, s in SEPS.items():
                yield Case("%s before token %d %s of %d" % (n, g, ts[g], i), tight(ts[:g]) + s + tight(ts[g:]), exp, MEM, DEC)
                if deep: yield Case("%s before token %d %s of %d, apart" % (n, g, ts[g], i), " ".join(ts[:g]) + s + " ".join(ts[g:]), exp, MEM, DEC)

def identifiers(deep):
    names = set("_ _a a1 __x x__y A Zz i _1 x9999999999999999999999".split()) | {"n" * 200}
    for k in KEYWORDS:
        for n in (k + "x", k + "_", k + "1", "_" + k, "x" + k, "1"[:0] + k.upper(), k.capitalize(), k + k, k[:-1]):
            if n and n not in KEYWORDS and n not in ("event", "lock", "fixed", "goto", "from", "import", "package", "params", "operator", "delegate", "decimal", "foreach", "sizeof", "unsafe", "volatile", "explicit", "implicit", "extern", "checked", "unchecked", "readonly", "stackalloc", "typedef"): names.add(n)
    names |= {"add", "get", "set", "global", "remove", "where", "value", "partial", "yield", "async", "await", "let", "join", "select", "on", "by", "into", "nameof", "dynamic", "when"}
    for n in sorted(names):
        body = "int %s = 5; %s=%s+2; Console.WriteLine(%s-1); Console.WriteLine(%s+%s); %s++; Console.WriteLine(%s); Console.WriteLine(-%s); int[] q = new int[9]; q[%s]=3; Console.WriteLine(q[%s]); { int %s1 = %s; Console.WriteLine(%s1*%s); }" % ((n,) * 15)
        yield Case("local %s" % n[:40], body, ["6", "14", "8", "-8", "3", "64"])
        if n in ("A", "i", "a", "Object"): continue
        c = "class N@ { public int %s; public int Get_() { return %s+1; } public int P_(int a) { %s=a; return this.%s-1; } }\n" % ((n,) * 4)
        yield Case("field %s" % n[:40], "N@ o = new N@(); o.%s=3; Console.WriteLine(o.%s-1); Console.WriteLine(o.Get_()); Console.WriteLine(o.P_(9)); Console.WriteLine(o.%s);" % ((n,) * 3), ["2", "4", "8", "9"], "", c)
        yield Case("method %s" % n[:40], "M@ o = new M@(); Console.WriteLine(o.%s(3)-1); Console.WriteLine(M@.%s_s(4)+1);" % (n, n), ["3", "10"], "", "class M@ { public int %s(int %s_p) { return %s_p+1; } public static int %s_s(int a) { return a*2+1; } }\n" % ((n,) * 4))

def adjacency(deep):
    """Two operands and an operator, written without spaces: the same as apart."""
    left = {"x": 10, "3": 3, "(x)": 10, "(x-1)": 9, "S@()": 20, "a[1]": 7, "o.f": 6, "x++": 10, "x--": 10, "0x1F": 31, "S@(1)": 21, "((x))": 10, "o.M(2)": 8, "(int)2.5": 2, "value": 4, "1u": 1, "-x": -10, "~x": -11, "a[x-9]": 7}
    right = {"y": 2, "2": 2, "(y)": 2, "-2": -2, "-y": -2, "+2": 2, "~y": -3, "S@()": 20, "a[1]": 7, "o.f": 6, "++y": 3, "--y": 1, "y++": 2, "0x3": 3, "(int)2.5": 2, "(-2)": -2, "-(2)": -2, "o.M(2)": 8, "- -y": 2}
    for l, lv in left.items():
        for r, rv in right.items():
            for op in ("+", "-", "*", "/", "%", "&", "|", "^", "<", "<=", ">", ">=", "==", "!="):
                if l == "1u": continue
                if not glue(op, r) or not glue(l, op): continue
                if op in "+-" and r[0] in "+-" : continue
                if l in ("x++", "x--") and op in "+-" : pass
                if op in "/%" and rv == 0: continue
                q = abs(lv) // abs(rv) * (1 if (lv < 0) == (rv < 0) else -1)
                v = {"+": lv + rv, "-": lv - rv, "*": lv * rv, "/": q, "%": lv - q * rv, "&": lv & rv, "|": lv | rv, "^": lv ^ rv, "<": lv < rv, "<=": lv <= rv, ">": lv > rv, ">=": lv >= rv, "==": lv == rv, "!=": lv != rv}[op]
                e = l + op + r
                pre = "int x=10;int y=2;int value=4;int[] a=new int[]{1,7};A@ o=new A@();o.f=6;"
                yield Case("together %s" % e, "%sConsole.WriteLine(%s);" % (pre, e), [str(v)], "static int S@() { return 20; } static int S@(int a) { return 20+a; }", "class A@ { public int f; public int M(int a) { return f+a; } }\n")

def run(ex, tier):
    deep = tier == "thorough"
    ex.explore("integers", integers(deep))
    ex.explore("floats", floats(deep))
    ex.explore("chars", chars())
    ex.explore("strings", strings(3 if deep else 2))
    ex.explore("separators", separators(deep))
    ex.explore("identifiers", identifiers(deep))
    ex.explore("adjacency", adjacency(deep))

if __name__ == "__main__":
    main("C19", run, "exhaustive enumeration of literals, separators, identifiers and token sequences, executed against their defined meaning")
