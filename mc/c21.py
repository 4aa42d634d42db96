"""C21: a name means the declaration the scoping rules select, and a member can be used exactly where its access modifier allows."""
from fw import *
from c20 import judge, wrap
from c18 import head
import os, glob

# ---------------------------------------------------------------- names that must be resolved

def scopes(extra):
    """x declared in any set of places: base class, class, parameter, local of the method, local of a block; every form of use in the method and in the block, after every write."""
    places = ("base", "own", "param", "local", "block")
    for on in itertools.product((0, 1), repeat=5):
        on = dict(zip(places, on))
        if on["param"] and (on["local"] or on["block"]) or on["local"] and on["block"]: continue       # not allowed in C#
        if not any(on.values()): continue
        inner = next((p for p in ("block", "param", "local", "own", "base") if on[p] and (p != "block")), None)
        inblock = "block" if on["block"] else inner
        member = "own" if on["own"] else "base" if on["base"] else None
        forms = {"x": inner, "this.x": member, "o.x": member, "base.x": "base" if on["base"] else None, "((T@)o).x": None, "t.x": "base" if on["base"] else None}
        bforms = dict(forms, x=inblock)
        for w in ([None] + [f for f in bforms if bforms[f]]):
            for typ in ("int", "long") if extra else ("int",):
                st = {"base": 10, "own": 20, "param": 30, "local": 40, "block": 50}
                sx = "L" if typ == "long" else ""
                body, exp = [], []
                def show(fs):
                    for f, p in fs.items():
                        if p: body.append("Console.WriteLine(%s);" % f); exp.append(str(st[p]))
                        if p: body.append("Console.WriteLine(%s + 1);" % f); exp.append(str(st[p] + 1))
                if on["local"]: body.append("%s x = 40%s;" % (typ, sx))
                show(forms)
                body.append("{")
                if on["block"]: body.append("%s x = 50%s;" % (typ, sx))
                show(bforms)
                if w:
                    body.append("%s = %s + 500%s; %s += 1%s;" % (w, w, sx, w, sx)); st[bforms[w]] += 501
                    show(bforms)
                body.append("}")
                show(forms)
                t = "public class T@ { %s }\n" % ("public %s x;" % typ if on["base"] else "public int y;")
                u = "public class U@ : T@ { %s public int z; public void M(%sU@ o, T@ t) { %s } }\n" % ("public new %s x;" % typ if on["own"] else "", "%s x, " % typ if on["param"] else "", " ".join(body))
                main = "U@ u = new U@(); T@ t = u; %s%su.M(%su, u);" % ("t.x = 10%s; " % sx if on["base"] else "", "u.x = 20%s; " % sx if on["own"] else "", "30%s, " % sx if on["param"] else "")
                yield Case("scopes %s write %s %s" % ("+".join(p for p in places if on[p]), w, typ), main, exp, "", t + u)

def hiding(n):
    """F declared anew in any set of classes of a chain: called through every static type and from the methods of every class."""
    for on in itertools.product((0, 1), repeat=n):
        if not any(on): continue
        for kind in ("method", "property", "field"):
            decl, body, exp = "", "C%d_@ o = new C%d_@();" % (n - 1, n - 1), []
            def get(e): return e + ("F()" if kind == "method" else "F")
            def sel(i):
                return next((k for k in range(i, -1, -1) if on[k]), None)
            for i in range(n):
                m = ""
                new = "new " if any(on[:i]) else ""
                if on[i]: m += {"method": "public %sint F() { return %d; }" % (new, i + 1), "property": "public %sint F { get { return %d; } }" % (new, i + 1), "field": "public %sint F;" % new}[kind]
                if sel(i) is not None:
                    m += " public int Q%d() { return %s; } public int R%d() { return 10 + %s; }" % (i, get(""), i, get("this."))
                    if i and sel(i - 1) is not None: m += " public int B%d() { return 20 + %s; }" % (i, get("base."))
                decl += "public class C%d_@%s { public int u%d; %s }\n" % (i, " : C%d_@" % (i - 1) if i else "", i, m)
            if kind == "field":
                for i in range(n):
                    if on[i]: body += " { C%d_@ q = o; q.F = %d; }" % (i, i + 1)
            for i in range(n):
                k = sel(i)
                if k is None: continue
                body += " { C%d_@ q = o; Console.WriteLine(%s); Console.WriteLine(q.Q%d()); Console.WriteLine(q.R%d());" % (i, get("q."), i, i)
                exp += [str(k + 1), str(k + 1), str(k + 11)]
                if i and sel(i - 1) is not None: body += " Console.WriteLine(q.B%d());" % i; exp.append(str(sel(i - 1) + 21))
                body += " }"
            yield Case("hiding %s in %s" % (kind, [i for i in range(n) if on[i]]), body, exp, "", decl)

def virtual_base(n, deep):
    """A virtual method overridden in any set of classes; every override adds its own number to the result of base.F()."""
    for on in itertools.product((0, 1), repeat=n - 1):
        on = (1,) + on
        for calls in itertools.product((0, 1), repeat=n):
            if calls[0]: continue
            if any(c and not o for c, o in zip(calls, on)): continue
            def val(i):
                k = next(k for k in range(i, -1, -1) if on[k])
                return [k] + (val(k - 1) if calls[k] else [])
            decl = "".join("public class C%d_@%s { public int u%d; %s }\n" % (i, " : C%d_@" % (i - 1) if i else "", i, "public %s int F(int a) { %s }" % ("override" if i else "virtual", "Console.WriteLine(\"F%d\"); return a%s;" % (i, " + 10 * base.F(a + 1)" if calls[i] else "")) if on[i] else "") for i in range(n))
            body, exp = "", []
            for i in range(n):
                for s in range(i + 1):
                    body += "{ C%d_@ q = new C%d_@(); Console.WriteLine(q.F(1)); }" % (s, i)
                    ks = val(i)
                    exp += ["F%d" % k for k in ks]
                    r = 0
                    for j in range(len(ks) - 1, -1, -1): r = 1 + j + 10 * r
                    exp.append(str(r))
            yield Case("base calls %s %s" % (on, calls), body, exp, "", decl)

# ---------------------------------------------------------------- namespaces

NS = ("", "A", "B", "A.B", "A.B.C", "D")
def lookup(decl, at, usings):
    """Where Q is found from the namespace: the innermost enclosing namespace which has it; at the outermost the file's usings follow."""
    ps = at.split(".") if at else []
    for i in range(len(ps), -1, -1):
        n = ".".join(ps[:i])
        if n in decl: return n
    for u in usings:
        if u in decl: return u
    return None

def namespaces(deep):
    """Q declared in any set of namespaces, used from every namespace by its simple name, with usings; and by its full name."""
    jobs = []
    for on in itertools.product((0, 1), repeat=len(NS)):
        decl = [n for n, o in zip(NS, on) if o]
        if not decl: continue
        for usings in ((), ("A",), ("A.B",), ("D",)):
            if len([u for u in usings if u in decl]) < len(usings): continue
            src, body, exp = "", "", []
            def ns(n, t): return "namespace %s { %s }\n" % (n, t) if n else t + "\n"
            for k, n in enumerate(NS):
                if n in decl: src += ns(n, "public class Q { public int F() { return %d; } public static int S() { return %d; } }" % (k, 10 + k))
            for k, n in enumerate(NS):
                f = lookup(decl, n, usings)
                if f is None: continue
                i = NS.index(f)
                src += ns(n, "public class R%d { public Q f; public static int G() { Q q = new Q(); return q.F(); } public static int H() { return Q.S(); } public int K(Q a) { f = a; return f.F(); } public static int L() { R%d r = new R%d(); return r.K(new Q()); } }" % (k, k, k))
                src += ns(n, "public class W%d : Q { public int Z() { return F(); } }" % k)
                tn = (n + "." if n else "")
                body += "{ %sR%d r = new %sR%d(); Console.WriteLine(r.I()); %sW%d w = new %sW%d(); Console.WriteLine(w.Z()); }\n" % (tn, k, tn, k, tn, k, tn, k)
                src = src.replace("public class R%d {" % k, "public class R%d { public int I() { return G() * 10000 + H() * 100 + L(); }" % k)
                exp += [str(i * 10000 + (10 + i) * 100 + i), str(i)]
            for n in decl:
                i, tn = NS.index(n), (n + "." if n else "")
                if not n: continue
                body += "{ %sQ q = new %sQ(); Console.WriteLine(q.F()); object o = q; Console.WriteLine(o is %sQ); }\n" % (tn, tn, tn)
                exp += [str(i), "True"]
            full = "import System;\nusing System;\n%s%sclass P { [EntryPoint] public static void Main() {\n%s} }\n" % ("".join("using %s;\n" % u for u in usings), src, body)
            yield "Q in %s using %s" % (decl, usings), full, exp

def runs(src, exp, opt):
    r = run_source(src, opt)
    if not r.timeout and r.rc == 0 and r.lines() == exp: return None
    return {"src": src, "opt": opt, "exp": exp, "got": r.out[:800], "detail": "the wrong declaration is used"}

# ---------------------------------------------------------------- access

ACC = ("public", "protected", "internal", "private", "", "protected internal", "internal protected", "private protected", "protected private")
MEMBERS = {"field": ("int m;", "{}m", 0), "written field": ("int m;", "{}m = 3", 1), "method": ("int m() {{ return 1; }}", "{}m()", 0), "static method": ("static int m() {{ return 1; }}", "{T}m()", 2), "constant": ("const int m = 3;", "{T}m", 2), "getter": ("int m {{ get {{ return 1; }} }}", "{}m", 0), "setter": ("int m {{ get {{ return 1; }} set {{ }} }}", "{}m = 2", 1), "overloaded method": ("int m(int a) {{ return 1; }} public int m(string s) {{ return 2; }}", "{}m(4)", 0)}
def allowed(acc, rel):
    """rel: where the use stands: own class, derived class (through itself, an object of itself, an object of the base), other class"""
    if "internal" in acc and "protected" in acc: return True
    if acc in ("private protected", "protected private"): acc = "protected"
    return {"public": True, "internal": True, "protected": rel in ("own", "other object", "derived", "derived object", "derived twice"), "private": rel in ("own", "other object"), "": rel in ("own", "other object")}[acc]
RELS = ("own", "other object", "derived", "derived object", "derived twice", "unrelated", "unrelated through derived")

def access():
    for acc in ACC:
        for mn, (decl, use, kind) in MEMBERS.items():
            for rel in RELS:
                d = acc + " " + decl.format(T="")
                def u(obj):
                    e = use.format(obj, T="T." if rel not in ("own", "derived", "derived twice") else "")
                    return "%s;" % e if kind == 1 else "int z = %s;" % e
                own, der, der2, main, extra = "", "", "", "", ""
                if rel == "own": own = "public void G() { %s }" % u("")
                elif rel == "other object": own = "public void G(T t) { %s }" % u("t.")
                elif rel == "derived": der = "public void G() { %s }" % u("")
                elif rel == "derived object": der = "public void G(U t) { %s }" % u("t.")
                elif rel == "derived twice": der2 = "public void G() { %s }" % u("")
                elif rel == "unrelated": extra = "public class X { public void G(T t) { %s } }\n" % u("t.")
                else: extra = "public class X { public void G(U t) { %s } }\n" % u("t.")
                src = wrap("T t = new T(); U v = new U(); W w = new W();", "", "public class T { %s %s }\npublic class U : T { %s }\npublic class W : U { %s }\n%s" % (d, own, der, der2, extra))
                yield "%s %s %s" % (acc, mn, rel), src, allowed(acc, rel)
                if rel in ("own", "other object", "unrelated") and "protected" not in acc:
                    yield "%s %s %s of a struct" % (acc, mn, rel), wrap("T t = new T();", "", "public struct T { %s %s public int k; }\n%s" % (d, own, extra)), allowed(acc, rel)
                if rel in ("own", "other object", "unrelated") and kind != 2:       # of a class in another class
                    yield "%s %s %s of a nested class" % (acc, mn, rel), wrap("O.T t = new O.T();", "", "public class O { public class T { %s %s } }\n%s" % (d, own, extra.replace("T t", "O.T t"))), allowed(acc, rel)

def cross(deep):
    """the same, the uses in another assembly"""
    for acc in ACC:
        for mn, (decl, use, kind) in MEMBERS.items():
            for rel in ("derived", "derived object", "derived twice", "unrelated", "unrelated through derived"):
                d = acc + " " + decl.format(T="")
                def u(obj):
                    e = use.format(obj, T="T." if rel not in ("derived", "derived twice") else "")
                    return "%s;" % e if kind == 1 else "int z = %s;" % e
                der, der2, extra = "", "", ""
                if rel == "derived": der = "public void G() { %s }" % u("")
                elif rel == "derived object": der = "public void G(U t) { %s }" % u("t.")
                elif rel == "derived twice": der2 = "public void G() { %s }" % u("")
                elif rel == "unrelated": extra = "public class X { public void G(T t) { %s } }\n" % u("t.")
                else: extra = "public class X { public void G(U t) { %s } }\n" % u("t.")
                ok = acc == "public" or acc in ("protected", "protected internal", "internal protected") and rel.startswith("derived")
                lib = head([]) + "public class T { %s }\n" % d
                app = head(["lib"]) + "public class U : T { %s }\npublic class W : U { %s }\n%sclass P { [EntryPoint] public static void Main() { Console.WriteLine(\"ran\"); T t = new T(); W w = new W(); } }\n" % (der, der2, extra)
                yield "%s %s %s" % (acc, mn, rel), lib, app, ok
    for acc in ("public", "internal", ""):
        for what in ("class", "struct", "interface", "enum"):
            body = {"class": "{ public int x; }", "struct": "{ public int x; }", "interface": "{ int F(); }", "enum": "{ X, Y }"}[what]
            uses = {"class": ["T t = new T();", "T t = null;", "object o = null; bool b = o is T;", "T[] t = new T[2];"], "struct": ["T t = new T();", "T[] t = new T[2];"], "interface": ["T t = null;", "object o = null; T t = o as T;"], "enum": ["T t = T.X;"]}[what]
            for s in uses:
                yield "%s %s %s" % (acc, what, s), head([]) + "%s %s T %s\n" % (acc, what, body), head(["lib"]) + "class P { [EntryPoint] public static void Main() { Console.WriteLine(\"ran\"); %s } }\n" % s, acc == "public"

def judge2(lib, app, ok, opt):
    d = new_dir()
    try:
        os.mkdir(os.path.join(d, "o"))
        for n, s in (("lib", lib), ("app", app)):
            os.mkdir(os.path.join(d, n))
            with open(os.path.join(d, n, "f.cs"), "w") as f: f.write(s)
        r = run_cmd([APRIL, "compile", "f.cs", SYSTEM, "-O", str(opt), "-o", "../o"], os.path.join(d, "lib"))
        src = "// lib\n" + lib + "// app\n" + app
        if r.rc or r.timeout: return {"src": src, "opt": opt, "exp": "lib is accepted", "got": r.out[:500], "detail": "the library is not compiled"}
        r = run_cmd([APRIL, "run", "f.cs", "../o/lib.apl", SYSTEM, "-O", str(opt)], os.path.join(d, "app"))
        ran = r.lines() == ["ran"] and r.rc == 0
        if r.timeout or ok != ran or (not ok and (r.rc == 0 or "ran" in r.lines() or "error" not in r.out)):
            return {"src": src, "opt": opt, "exp": "accepted" if ok else "rejected", "got": r.out[:500], "detail": "exit code %s" % r.rc}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run(ex, tier):
    deep = tier == "thorough"
    ex.explore("scopes", scopes(deep))
    ex.explore("hiding", hiding(5 if deep else 4))
    ex.explore("base calls", virtual_base(5 if deep else 4, deep))
    def jobs(name, gen, fn, levels):
        for i, t in enumerate(gen):
            for o in levels if deep else (levels[i % len(levels)],):
                yield "%s: %s O%d" % (name, t[0], o), 3, (lambda t=t, o=o: fn(*t[1:], o))
    for name, gen, fn in (("namespaces", namespaces(deep), runs), ("access", access(), judge), ("assemblies", cross(deep), judge2)):
        if not ONLY or ONLY in name: ex.check(name, jobs(name, gen, fn, (0, 2)))

if __name__ == "__main__":
    main("C21", run, "exhaustive enumeration of scopes, hidings, namespaces and accesses, executed against a model of the scoping and access rules")
