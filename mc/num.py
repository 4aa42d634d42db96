"""Reference semantics of the numeric types."""
import struct, math

INTS = {"sbyte": (8, True), "byte": (8, False), "short": (16, True), "ushort": (16, False),
        "int": (32, True), "uint": (32, False), "long": (64, True), "ulong": (64, False)}
FLOATS = ("float", "double")
ITYPES = list(INTS)
NTYPES = ITYPES + list(FLOATS)

def lo(t): b, s = INTS[t]; return -(1 << (b - 1)) if s else 0
def hi(t): b, s = INTS[t]; return (1 << (b - 1)) - 1 if s else (1 << b) - 1

def wrap(v, t):
    b, s = INTS[t]
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v

def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf

def result_type(a, b):
    """The type a binary arithmetic operation of two numeric types has."""
    if "double" in (a, b): return "double"
    if "float" in (a, b): return "float"
    if "ulong" in (a, b): return "ulong"
    if "long" in (a, b): return "long"
    if "uint" in (a, b):
        o = b if a == "uint" else a
        return "long" if INTS[o][1] else "uint"
    return "int"

def promote(t):
    if t in FLOATS: return t
    return t if INTS[t][0] >= 32 else "int"

def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q

def arith(op, a, ta, b, tb):
    """Returns (value, type), or None when the operation has no defined value (x/0 etc)."""
    t = result_type(ta, tb)
    if t in FLOATS:
        r = f32 if t == "float" else float
        x, y = r(a), r(b)
        if op == "+": v = x + y
        elif op == "-": v = x - y
        elif op == "*": v = x * y
        elif op == "/":
            if y == 0: return None
            v = x / y
        else: return None
        return r(v), t
    x, y = wrap(a, t), wrap(b, t)
    if op in "/%":
        if y == 0: return None
        if y == -1 and x == lo(t): return None
    if op == "+": v = x + y
    elif op == "-": v = x - y
    elif op == "*": v = x * y
    elif op == "/": v = tdiv(x, y)
    elif op == "%": v = x - y * tdiv(x, y)
    elif op == "&": v = x & y
    elif op == "|": v = x | y
    elif op == "^": v = x ^ y
    return wrap(v, t), t

def convert(v, src, dst):
    """Explicit conversion; None when undefined."""
    if dst in FLOATS:
        return f32(v) if dst == "float" else float(v)
    if src in FLOATS:
        if v != v or math.isinf(v): return None
        i = math.trunc(v)
        if not lo(dst) <= i <= hi(dst): return None
        return i
    return wrap(v, dst)

def literal(v, t):
    """An expression of exactly type t with value v."""
    if t in FLOATS:
        return flit(v, t)
    if t == "int":
        return str(v) if v >= 0 else ("(%d)" % v if v > lo("int") else "(-2147483647-1)")
    if t == "uint": return "%du" % v
    if t == "long":
        return "%dL" % v if v >= 0 else ("(%dL)" % v if v > lo("long") else "(-9223372036854775807L-1L)")
    if t == "ulong": return "%duL" % v
    return "((%s)%s)" % (t, literal(v, "int"))

def bounds(t, rich=False):
    """Boundary values of an integer type."""
    b, s = INTS[t]
    vs = [0, 1, 2, 3, 7, hi(t), hi(t) - 1]
    if s: vs += [-1, -2, -3, -7, lo(t), lo(t) + 1]
    for k in (8, 16, 32):
        if b > k:
            vs += [(1 << k) - 1, 1 << k, (1 << (k - 1)) - 1, 1 << (k - 1)]
            if s: vs += [-(1 << (k - 1)), -(1 << (k - 1)) - 1]
    if b > 8: vs += [100, 1000]
    if rich:
        for k in range(b - (1 if s else 0)):
            vs += [1 << k, (1 << k) - 1]
            if s: vs += [-(1 << k)]
    return sorted(set(v for v in vs if lo(t) <= v <= hi(t)))

def g(v):
    """A floating number as Console prints it."""
    if v != v: return "nan"
    if math.isinf(v): return "inf" if v > 0 else "-inf"
    return "%g" % v

def show(v, t):
    return g(v) if t in FLOATS else str(v)

FVALUES = {
    "float": [0.0, 1.0, -1.0, 0.5, 1.5, -2.75, 3.0, 100.25, -128.0, 127.0, 255.0, 65535.0, -32768.0, 8388609.0, 16777216.0, 16777215.0, 0.1, 1048576.5],
    "double": [0.0, 1.0, -1.0, 0.5, 1.5, -2.75, 3.0, 100.25, -128.0, 127.0, 255.0, 65535.0, -32768.0, 8388609.0, 16777217.0, 2147483647.0,
               -2147483648.0, 4294967295.0, 4294967296.5, 9007199254740991.0, -9007199254740991.0, 0.1, 123456.789],
}

def fvalues(t):
    return [f32(v) if t == "float" else v for v in FVALUES[t]]

def values_of(t):
    return bounds(t) if t in INTS else fvalues(t)

def flit(v, t):
    """A literal of a floating type with exactly this value."""
    s = "%.17f" % abs(v) if t == "double" else "%.20f" % abs(v)
    s = s.rstrip("0")
    if s.endswith("."): s += "0"
    s += "f" if t == "float" else ""
    return s if v >= 0 else "(-%s)" % s
