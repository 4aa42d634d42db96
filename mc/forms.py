"""Ways an operand can be held: every place a value can be read from or written to."""
from num import literal

# name -> (members, statements before use, expression); T type, V expression of the value, N a distinguishing letter
def operand(form, T, V, N):
    if form == "refp":                       # a ref parameter, see by_ref
        return "", "", V
    if form == "param":                      # the caller's argument itself
        return "", "", V
    if form == "local":
        return "", "%s l%s = %s;" % (T, N, V), "l" + N
    if form == "elem2":
        return "", "%s[,] m%s = new %s[2,3]; m%s[1,2] = %s;" % (T, N, T, N, V), "m%s[1,2]" % N
    if form == "field":
        return ("class O%s@ { public int u; public %s f; public int w; }" % (N, T),
                "O%s@ o%s = new O%s@(); o%s.f = %s;" % (N, N, N, N, V), "o%s.f" % N)
    if form == "sfield":
        return ("struct R%s@ { public byte u; public %s f; public int w; }" % (N, T),
                "R%s@ r%s = new R%s@(); r%s.f = %s;" % (N, N, N, N, V), "r%s.f" % N)
    if form == "elem":
        return "", "%s[] e%s = new %s[3]; e%s[1] = %s;" % (T, N, T, N, V), "e%s[1]" % N
    if form == "call":
        return "static %s g%s@(%s v) { return v; }" % (T, N, T), "", "g%s@(%s)" % (N, V)
    if form == "prop":
        return ("class Q%s@ { %s _f; public %s F { get { return _f; } set { _f = value; } } }" % (N, T, T),
                "Q%s@ q%s = new Q%s@(); q%s.F = %s;" % (N, N, N, N, V), "q%s.F" % N)
    raise ValueError(form)

FORMS = ["param", "local", "field", "sfield", "elem", "elem2", "call", "prop"]
LVALUES = ["local", "param", "field", "sfield", "elem", "elem2", "refp"]

def by_ref(form, fn, T):
    """The members for fn, a method F@ whose first parameter p is held as the form says."""
    if form != "refp": return [fn]
    rest = fn[fn.index("(") + 1:fn.index(")")].split(", ")[1:]
    return [fn.replace("F@(", "R@(ref ", 1), "static void F@(%s) { %s l = p; R@(%s); Console.WriteLine(l); }" % (", ".join(["%s p" % T] + rest), T, ", ".join(["ref l"] + [r.split()[-1] for r in rest]))]

def array(T, vals):
    return "new %s[]{%s}" % (T, ", ".join(literal(v, T) for v in vals))

def is_type(m):
    return m.startswith(("class ", "struct "))
