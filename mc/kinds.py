"""Kinds of values (every storage class the language has): how to write two distinct values of each, show one, and what that prints."""
from num import literal, g

DECLS = """
public enum En { A, B = 5, C }
public struct S1 { public byte a; public S1(byte p) { a = p; } }
public struct S3 { public byte a; public short b; public sbyte c; public S3(byte p, short q, sbyte r) { a = p; b = q; c = r; } }
public struct S12 { public int a; public long b; public S12(int p, long q) { a = p; b = q; } }
public struct SN { public S1 s; public double d; public S3 t; public SN(S1 p, double q, S3 r) { s = p; d = q; t = r; } }
public struct SR { public Rf r; public bool b; public SR(Rf p, bool q) { r = p; b = q; } }
public class Rf { public int v; public Rf(int p) { v = p; } }
public class W {
    public static void sbyte_(sbyte v) { Console.WriteLine(v); }
    public static void byte_(byte v) { Console.WriteLine(v); }
    public static void short_(short v) { Console.WriteLine(v); }
    public static void ushort_(ushort v) { Console.WriteLine(v); }
    public static void int_(int v) { Console.WriteLine(v); }
    public static void uint_(uint v) { Console.WriteLine(v); }
    public static void long_(long v) { Console.WriteLine(v); }
    public static void ulong_(ulong v) { Console.WriteLine(v); }
    public static void float_(float v) { Console.WriteLine(v); }
    public static void double_(double v) { Console.WriteLine(v); }
    public static void bool_(bool v) { Console.WriteLine(v); }
    public static void char_(char v) { Console.WriteLine(v); }
    public static void string_(string v) { Console.WriteLine(v); }
    public static void En_(En v) { if (v == En.A) Console.WriteLine("A"); else if (v == En.B) Console.WriteLine("B"); else if (v == En.C) Console.WriteLine("C"); else Console.WriteLine("?"); }
    public static void S1_(S1 v) { Console.WriteLine(v.a); }
    public static void S3_(S3 v) { Console.WriteLine(v.a); Console.WriteLine(v.b); Console.WriteLine(v.c); }
    public static void S12_(S12 v) { Console.WriteLine(v.a); Console.WriteLine(v.b); }
    public static void SN_(SN v) { Console.WriteLine(v.s.a); Console.WriteLine(v.d); Console.WriteLine(v.t.a); Console.WriteLine(v.t.b); Console.WriteLine(v.t.c); }
    public static void SR_(SR v) { Rf_(v.r); Console.WriteLine(v.b); }
    public static void Rf_(Rf v) { if (v == null) Console.WriteLine("null"); else Console.WriteLine(v.v); }
    public static void obj_(object v) { if (v == null) Console.WriteLine("null"); else if (v is int) Console.WriteLine((int)v); else if (v is Rf) Rf_((Rf)v); else Console.WriteLine("?"); }
    public static void arr_(int[] v) { if (v == null) Console.WriteLine("null"); else { Console.WriteLine(v.Length); Console.WriteLine(v[0]); Console.WriteLine(v[1]); } }
}
"""
# kind -> (type, [(expression, lines) ...], lines of the default value)
KINDS = {}
for t, vs in (("sbyte", [-128, 127, -5]), ("byte", [255, 129, 7]), ("short", [-32768, 32767, -300]), ("ushort", [65535, 32769, 300]), ("int", [-2147483647, 2147483647, -70000]),
              ("uint", [4294967295, 2147483649, 70000]), ("long", [-9223372036854775807, 9223372036854775807, -5000000000]), ("ulong", [18446744073709551615, 9223372036854775809, 5000000000])):
    KINDS[t] = (t, [(literal(v, t), [str(v)]) for v in vs], ["0"])
KINDS["float"] = ("float", [("(-1.5f)", ["-1.5"]), ("2.25f", ["2.25"]), ("1024.5f", ["1024.5"])], ["0"])
KINDS["double"] = ("double", [("(-123456.5)", ["-123456"]), ("0.125", ["0.125"]), ("65536.25", ["65536.2"])], ["0"])
KINDS["double"] = ("double", [("(-12345.5)", ["-12345.5"]), ("0.125", ["0.125"]), ("65536.5", ["65536.5"])], ["0"])
KINDS["bool"] = ("bool", [("true", ["True"]), ("false", ["False"]), ("true", ["True"])], ["False"])
KINDS["char"] = ("char", [("'a'", ["a"]), ("'Z'", ["Z"]), ("'7'", ["7"])], None)
KINDS["string"] = ("string", [('"ab"', ["ab"]), ('"x y z"', ["x y z"]), ('"q"', ["q"])], None)
KINDS["En"] = ("En", [("En.C", ["C"]), ("En.B", ["B"]), ("En.A", ["A"])], ["A"])
KINDS["S1"] = ("S1", [("new S1((byte)250)", ["250"]), ("new S1((byte)3)", ["3"]), ("new S1((byte)129)", ["129"])], ["0"])
KINDS["S3"] = ("S3", [("new S3((byte)250, (short)(-300), (sbyte)(-7))", ["250", "-300", "-7"]), ("new S3((byte)1, (short)2, (sbyte)3)", ["1", "2", "3"]), ("new S3((byte)255, (short)(-1), (sbyte)(-128))", ["255", "-1", "-128"])], ["0", "0", "0"])
KINDS["S12"] = ("S12", [("new S12(-9, -5000000000L)", ["-9", "-5000000000"]), ("new S12(8, 7L)", ["8", "7"]), ("new S12(2147483647, 9223372036854775807L)", ["2147483647", "9223372036854775807"])], ["0", "0"])
KINDS["SN"] = ("SN", [("new SN(new S1((byte)9), 1.5, new S3((byte)250, (short)(-300), (sbyte)(-7)))", ["9", "1.5", "250", "-300", "-7"]), ("new SN(new S1((byte)200), -0.25, new S3((byte)1, (short)2, (sbyte)3))", ["200", "-0.25", "1", "2", "3"])], ["0", "0", "0", "0", "0"])
KINDS["SR"] = ("SR", [("new SR(new Rf(77), true)", ["77", "True"]), ("new SR(new Rf(-78), false)", ["-78", "False"])], ["null", "False"])
KINDS["Rf"] = ("Rf", [("new Rf(-31)", ["-31"]), ("new Rf(32)", ["32"]), ("new Rf(33)", ["33"])], ["null"])
KINDS["obj"] = ("object", [("(object)41", ["41"]), ("(object)(new Rf(42))", ["42"]), ("(object)43", ["43"])], ["null"])
KINDS["arr"] = ("int[]", [("new int[]{51, -52}", ["2", "51", "-52"]), ("new int[]{53, 54, 55}", ["3", "53", "54"])], ["null"])

NUM = ["sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"]
ALL = list(KINDS)

def T(k): return KINDS[k][0]
def val(k, i): vs = KINDS[k][1]; return vs[i % len(vs)]
def show(k, e): return "W.%s_(%s);" % (k, e)
def default(k): return KINDS[k][2]
def many(k, i):
    """The i-th of up to a hundred distinct values (two of bool, three of En) of a kind."""
    t = T(k)
    if k in NUM[:8]:
        v = {"sbyte": -128, "byte": 130, "short": -32768, "ushort": 65400, "int": -2147483647, "uint": 4294967200, "long": -9223372036854775807, "ulong": 18446744073709551500}[k] + i
        return literal(v, t), [str(v)]
    if k == "float": return "%d.5f" % (i + 100), ["%d.5" % (i + 100)]
    if k == "double": return "%d.25" % (i + 100), ["%d.25" % (i + 100)]
    if k == "bool": return (("true", ["True"]), ("false", ["False"]))[i % 2]
    if k == "char": c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"[i % 62]; return "'%s'" % c, [c]
    if k == "string": return '"s%d"' % i, ["s%d" % i]
    if k == "En": return (("En.C", ["C"]), ("En.B", ["B"]), ("En.A", ["A"]))[i % 3]
    if k == "S1": return "new S1((byte)%d)" % (130 + i), [str(130 + i)]
    if k == "S3": return "new S3((byte)%d, (short)(-%d), (sbyte)%d)" % (130 + i, 300 + i, i), [str(130 + i), str(-300 - i), str(i)]
    if k == "S12": return "new S12(%d, %dL)" % (70000 + i, 5000000000 + i), [str(70000 + i), str(5000000000 + i)]
    if k == "SN": return "new SN(new S1((byte)%d), %d.5, new S3((byte)%d, (short)%d, (sbyte)%d))" % (i, i, i + 1, i + 2, i + 3), [str(i), "%d.5" % i, str(i + 1), str(i + 2), str(i + 3)]
    if k == "SR": return "new SR(new Rf(%d), %s)" % (i, ("true", "false")[i % 2]), [str(i), ("True", "False")[i % 2]]
    if k == "Rf": return "new Rf(%d)" % (700 + i), [str(700 + i)]
    if k == "obj": return "(object)%d" % (800 + i), [str(800 + i)]
    raise KeyError(k)
