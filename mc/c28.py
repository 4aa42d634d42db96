"""C28: a command line, project or solution compiles exactly the files it names into the assemblies it names, and runs the one it names."""
import itertools, os, shutil
from fw import *

N = 4
NAMES = ("Base", "Middle", "Top")

def type_src(i, lib_of, me, entry):
    """Type i uses the types before it; lib_of: project of each type."""
    deps = sorted({lib_of[k] for k in range(i) if lib_of[k] != me})
    s = "import System;\n" + "".join("import %s;\n" % d for d in deps) + "using System;\n" + "".join("using %s;\n" % d for d in deps)
    val = " + ".join(["%d" % (10 ** i)] + ["T%d.F()" % k for k in range(i)])
    s += "public class T%d { public static int F() { return %s; }\n" % (i, val)
    if entry: s += "[EntryPoint]\npublic static void Main() { Console.WriteLine(\"%s\"); Console.WriteLine(T%d.F()); }\n" % (me, i)
    return s + "}\n"

def value(i): return 10 ** i + sum(value(k) for k in range(i))

def assignments():
    """Every way to give N types to at most 3 projects whose uses of each other are acyclic (type i uses all before it, so monotone)."""
    for a in itertools.product(range(3), repeat=N):
        if all(a[i] <= a[i + 1] for i in range(N - 1)) and a[0] == 0 and all(a[i + 1] - a[i] <= 1 for i in range(N - 1)): yield a

# How a project names its files: (files on disk as (folder, name), patterns, decoys that must not be compiled)
BAD = "this is no program"
def layouts(types):
    fs = ["t%d.cs" % i for i in types]
    yield "listed", {f: f for f in fs}, list(fs), {"t9.cs": BAD, "u.txt": BAD}
    yield "reversed", {f: f for f in fs}, fs[::-1], {"x.cs": BAD}
    yield "star", {f: f for f in fs}, ["*.cs"], {"u.txt": BAD, "sub/t9.cs": BAD, "t.cs.bak": BAD, "xcs": BAD}
    yield "prefix star", {f: f for f in fs}, ["t*.cs"], {"u1.cs": BAD, "at1.cs": BAD, "T7.cs": BAD}
    yield "question", {f: f for f in fs}, ["t?.cs"], {"t10.cs": BAD, "t.cs": BAD, "tt.txt": BAD}
    yield "two stars", {f: f for f in fs}, ["*?.c*"], {"t.txt": BAD}
    yield "twice", {f: f for f in fs}, ["*.cs", fs[0], "t?.cs"], {}
    yield "sub folder", {f: ("sub/" + f if k % 2 else f) for k, f in enumerate(fs)}, ["*.cs"] + (["sub/*.cs"] if len(fs) > 1 else []), {"other/t5.cs": BAD}
    yield "deep", {f: "a/b/" * (k % 3) + f for k, f in enumerate(fs)}, [("a/b/" * (k % 3)) + "*.cs" for k in range(min(3, len(fs)))], {"a/t8.cs": BAD}
    yield "up", {f: "../shared_%s/" % f[1] + f for f in fs}, ["../shared_%s/*.cs" % f[1] for f in fs], {"t0.cs": BAD}
    yield "other names", {f: f.replace("t", "My file+(1)-_") for f in fs}, ["My file*.cs"], {"My fil.cs": BAD}
    yield "mixed kinds", {f: f for f in fs}, ["t*"], {"t1x.apl": None, "t0a.apl": None}

def project_xml(name, pats, comment, inline=""):
    c = "<!-- a comment -->" if comment else ""
    return "%s<project>%s\n<name>%s</name>\n<files>%s\n%s</files>%s</project>\n" % ("" if inline else '<?xml version="1.0" encoding="utf-8" ?>\n' + c, c, name, c, "".join("<file>%s<path>%s%s</path></file>\n" % (c, inline, p) for p in pats), c)

def solution_xml(parts, comment):
    c = "<!-- a comment -->" if comment else ""
    return '<?xml version="1.0" encoding="utf-8" ?>\n%s<solution>%s<name>All</name>\n<projects>%s\n%s</projects></solution>\n' % (c, c, c, c.join(parts))

def write(d, p, text):
    p = os.path.normpath(os.path.join(d, p)); os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb" if text is None else "w") as f: f.write(b"" if text is None else text)

def build(d, asg, layout, entries, comment):
    """Writes the sources and the project files; returns [(name, folder, patterns)]."""
    names = [NAMES[k] for k in range(asg[-1] + 1)]
    lib = {i: NAMES[asg[i]] for i in range(N)}
    out = []
    for k, nm in enumerate(names):
        types = [i for i in range(N) if asg[i] == k]
        lay = list(layouts(types))[layout]
        folder = "dir%d" % k
        os.makedirs(os.path.join(d, folder), exist_ok=True)
        for i in types: write(d, folder + "/" + lay[1]["t%d.cs" % i], type_src(i, lib, nm, i == types[-1] and nm in entries))
        for f, t in lay[3].items(): write(d, folder + "/" + f, t)
        write(d, folder + "/p.project", project_xml(nm, lay[2], comment))
        out.append((nm, folder, lay[2], types))
    return out

FORMS = ("solution", "inline", "projects", "pattern of projects", "one by one")

def attempt(asg, layout, form, order, opt, entries, choose, via, comment):
    """None, or what was wrong."""
    d = new_dir()
    try:
        ps = build(d, asg, layout, entries, comment)
        os.makedirs(d + "/out")
        perm = list(itertools.permutations(ps))[order]
        if form == "solution":
            write(d, "s/all.solution", solution_xml(["<project><path>../%s/p.project</path></project>\n" % p[1] for p in perm], comment)); args = ["s/all.solution"]
        elif form == "inline":
            write(d, "all.solution", solution_xml([project_xml(p[0], p[2], comment, p[1] + "/") for p in perm], comment)); args = ["all.solution"]
        elif form == "projects": args = [p[1] + "/p.project" for p in perm]
        elif form == "pattern of projects":
            for p in perm: write(d, "q/%s.project" % p[1], project_xml(p[0], p[2], comment).replace("<path>", "<path>../%s/" % p[1]))
            args = ["q/*.project"]
        else: args = None
        sel = ["-e", choose] if choose else []
        tail = ["-O", str(opt), "-o", "out"]
        exp_names = {p[0] for p in ps}
        if args is not None:
            r = run_cmd([APRIL, "run" if via == "run" else "compile"] + args + [SYSTEM] + tail + (sel if via == "run" else []), d)
        else:
            done = []
            for p in ps:
                last = p is ps[-1] and via == "run"
                r = run_cmd([APRIL, "run" if last else "compile", p[1] + "/p.project"] + done + [SYSTEM] + tail + (sel if last else []), d)
                if r.rc: break
                done.append("out/%s.apl" % p[0])
        got_names = {f[:-4] for f in os.listdir(d + "/out")}
        if via == "apl" and r.rc == 0:
            if r.out: return "compile printed " + r.out[:300], exp_names
            shutil.copy(SYSTEM, d + "/out/System.apl")
            for p in ps: shutil.rmtree(d + "/" + p[1])
            apls = sorted(f for f in os.listdir(d + "/out"))
            if order % 2: apls.reverse()
            r = run_cmd([APRIL, "run"] + apls + sel, d + "/out")
        ran = choose or (sorted(entries)[0] if len(entries) == 1 else None)
        if ran in entries:
            last = max(i for i in range(N) if NAMES[asg[i]] == ran)
            exp = [ran, str(value(last))]
            if r.timeout or r.rc or r.lines() != exp: return "expected %s, got rc %s %s" % (exp, r.rc, (r.out + r.err)[:400]), exp
        else:
            if r.timeout or r.rc in (0, 139, 134) or any(l.isdigit() for l in r.lines()): return "expected a refusal, got rc %s %s" % (r.rc, r.out[:300]), "refused"
        if got_names != exp_names: return "assemblies %s instead of %s" % (sorted(got_names), sorted(exp_names)), sorted(exp_names)
        return None
    finally: shutil.rmtree(d, ignore_errors=True)

def job(key, steps, *a):
    def fn():
        r = attempt(*a)
        return None if r is None else {"src": "// %s" % key, "opt": a[4], "exp": r[1], "got": r[0], "detail": "%s: %s" % (key, r[0])}
    return key, steps, fn

def projects(deep):
    """placement x layout x form x order"""
    q = 0
    for asg in assignments():
        n = asg[-1] + 1
        top = NAMES[n - 1]
        for l, lname in enumerate(x[0] for x in layouts([0, 1])):
            for form in FORMS:
                orders = range(len(list(itertools.permutations(range(n))))) if form in ("solution", "inline", "projects") else (0,)
                for o in orders:
                    for via in ("run", "apl"):
                        q += 1
                        for opt in (0, 1, 2, 3) if deep else (q % 4,):
                            yield job("placement %s, %s, %s, order %d, %s O%d" % (asg, lname, form, o, via, opt), n, asg, l, form, o, opt, {top}, None, via, q % 2)

def choices(deep):
    """sets of executable projects x the one chosen, or none"""
    for asg in assignments():
        n = asg[-1] + 1
        names = NAMES[:n]
        for k in range(n + 1):
            for ent in itertools.combinations(names, k):
                for ch in (None,) + tuple(names) + ("Absent",):
                    for form in FORMS[:3] if deep else (FORMS[(k + n) % 3],):
                        for via in ("run", "apl"):
                            yield job("executables %s, -e %s, placement %s, %s %s" % (ent, ch, asg, form, via), n, asg, 0, form, 0, 0, set(ent), ch, via, False)

# --- sources on the command line ---
def sources(deep):
    """The same four types as plain sources: how the files are named."""
    lay = [(("a", "a", "a", "a"), ["a/*.cs"]), (("a", "a", "b", "b"), ["a/*.cs", "b/*.cs"]), (("a", "b", "a", "b"), ["b/*.cs", "a/*.cs"]), (("a", "a", "a", "a"), ["a/t0.cs", "a/t?.cs"]), (("a", "a", "a", "a"), ["a"]), (("a", "b", "a", "b"), ["a", "b"]), (("a", "a", "b", "b"), ["a/t0.cs", "a/t1.cs", "b"]), ((".", ".", ".", "."), ["*.cs"]), ((".", ".", ".", "."), ["t?.cs"]), ((".", ".", "a", "a"), ["*.cs", "a/*.cs"]), (("a", "a", "a/b", "a/b"), ["a", "a/b"]), ((".", ".", ".", "."), ["t3.cs", "t1.cs", "t0.cs", "t2.cs"]), ((".", "a", "b", "a/b"), ["t0.cs", "./a/t1.cs", "b/../b/t2.cs", "a/b/t?.cs"]), ((".", ".", ".", "."), ["ABS/t0.cs", "ABS/t?.cs"]), (("a", "a", "a", "a"), ["ABS/a"]), (("a b", "a b", "c", "c"), ["a b/*.cs", "c/*.cs"])]
    for k, (places, args) in enumerate(lay):
        for perm in itertools.permutations(range(len(args))) if len(args) < 4 or deep else [range(len(args))]:
            for via in ("run", "apl"):
                for opt in (0, 2):
                    def fn(places=places, args=args, perm=perm, via=via, opt=opt):
                        d = new_dir()
                        try:
                            w = d + "/work"; os.makedirs(w + "/out")
                            for i in range(N):
                                write(w, places[i] + "/t%d.cs" % i, type_src(i, {k: "P" for k in range(N)}, "P", i == N - 1))
                            for f in ("hidden/.t9.cs", "a/.hidden.cs", ".x.cs", "a/z/t7.cs", "c/y/t6.cs"): write(w, f, BAD)
                            if "*.cs" in args: os.remove(w + "/.x.cs")
                            if any(x.startswith("a/*") or x == "a b/*.cs" for x in args): os.remove(w + "/a/.hidden.cs")
                            a = [args[i].replace("ABS", w) for i in perm]
                            r = run_cmd([APRIL, "run" if via == "run" else "compile"] + a + [SYSTEM, "-O", str(opt), "-o", "out"], w)
                            fs = os.listdir(w + "/out")
                            if len(fs) != 1 or not fs[0].endswith(".apl"): bad = "assemblies %s, rc %s %s" % (fs, r.rc, r.out[:300])
                            else:
                                if via == "apl":
                                    shutil.copy(SYSTEM, w + "/out/System.apl")
                                    r = run_cmd([APRIL, "run", fs[0], "System.apl"], w + "/out")
                                bad = None if not r.rc and not r.timeout and r.lines() == ["P", str(value(3))] else "rc %s %s" % (r.rc, r.out[:300])
                            return None if bad is None else {"src": "// %s" % (args,), "opt": opt, "exp": ["P", str(value(3))], "got": bad, "detail": bad}
                        finally: shutil.rmtree(d, ignore_errors=True)
                    yield "sources %s order %s %s O%d" % (" ".join(args), "".join(map(str, perm)), via, opt), 4, fn

# --- what cannot be built ---
def mistakes(deep):
    P = lambda n, *pats: project_xml(n, pats, False)
    ok = "import System;\nusing System;\nclass P {\n[EntryPoint]\npublic static void Main() { Console.WriteLine(7); }\n}\n"
    lib = "import System;\nusing System;\npublic class L { public static int F() { return 5; } }\n"
    use = "import System;\nimport Lib;\nusing System;\nusing Lib;\nclass P {\n[EntryPoint]\npublic static void Main() { Console.WriteLine(L.F()); }\n}\n"
    CS = [
        ("no such file", {"a/m.cs": ok}, ["a/n.cs"], None), ("no such file after another", {"a/m.cs": ok}, ["a/m.cs", "a/n.cs"], None),
        ("pattern without files", {"a/m.cs": ok}, ["a/*.x"], None), ("no such folder", {"a/m.cs": ok}, ["b/*.cs"], None),
        ("project without files", {"a/m.cs": ok, "p.project": P("X")}, ["p.project"], None),
        ("project of absent file", {"a/m.cs": ok, "p.project": P("X", "a/n.cs")}, ["p.project"], None),
        ("project of empty pattern", {"a/m.cs": ok, "p.project": P("X", "a/*.x")}, ["p.project"], None),
        ("project without a name", {"a/m.cs": ok, "p.project": "<project><files><file><path>a/m.cs</path></file></files></project>"}, ["p.project"], None),
        ("project that is not xml", {"a/m.cs": ok, "p.project": "<project><name>"}, ["p.project"], None),
        ("empty project", {"a/m.cs": ok, "p.project": ""}, ["p.project"], None),
        ("no such project", {"a/m.cs": ok}, ["q.project"], None),
        ("solution without projects", {"s.solution": solution_xml([], False)}, ["s.solution"], None),
        ("solution of absent project", {"s.solution": solution_xml(["<project><path>q.project</path></project>"], False)}, ["s.solution"], None),
        ("source and project", {"a/m.cs": ok, "p.project": P("X", "a/m.cs")}, ["a/m.cs", "p.project"], None),
        ("project and solution", {"a/m.cs": ok, "p.project": P("X", "a/m.cs"), "s.solution": solution_xml(["<project><path>p.project</path></project>"], False)}, ["s.solution", "p.project"], None),
        ("error in one project", {"a/l.cs": lib.replace("5", "q"), "b/m.cs": ok, "p.project": P("Lib", "a/l.cs"), "q.project": P("X", "b/m.cs")}, ["p.project", "q.project"], None),
        ("error in the other project", {"a/l.cs": lib, "b/m.cs": ok.replace("7", "q"), "p.project": P("Lib", "a/l.cs"), "q.project": P("X", "b/m.cs")}, ["p.project", "q.project"], None),
        ("import of no project", {"b/m.cs": use, "q.project": P("X", "b/m.cs")}, ["q.project"], None),
        ("import by the folder's name", {"Lib/l.cs": lib, "b/m.cs": use, "p.project": P("Other", "Lib/l.cs"), "q.project": P("X", "b/m.cs")}, ["p.project", "q.project"], None),
        ("optimize level 4", {"m.cs": ok}, ["m.cs", "-O", "4"], None), ("optimize level -1", {"m.cs": ok}, ["m.cs", "-O", "-1"], None),
        ("two executables", {"a/m.cs": ok, "b/m.cs": ok, "p.project": P("X", "a/m.cs"), "q.project": P("Y", "b/m.cs")}, ["p.project", "q.project"], None),
        ("first of two executables", {"a/m.cs": ok, "b/m.cs": ok.replace("7", "8"), "p.project": P("X", "a/m.cs"), "q.project": P("Y", "b/m.cs")}, ["p.project", "q.project", "-e", "X"], "7"),
        ("second of two executables", {"a/m.cs": ok, "b/m.cs": ok.replace("7", "8"), "p.project": P("X", "a/m.cs"), "q.project": P("Y", "b/m.cs")}, ["p.project", "q.project", "-e", "Y"], "8"),
        ("projects of one folder", {"a/m.cs": use, "a/l.cs": lib, "a/p.project": P("Lib", "l.cs"), "a/q.project": P("X", "m.cs")}, ["a/p.project", "a/q.project"], "5"),
        ("projects of one folder by pattern", {"a/m.cs": use, "a/l.cs": lib, "a/p.project": P("Lib", "l.cs"), "a/q.project": P("X", "m.cs")}, ["a/*.project"], "5"),
        ("import by the project's name", {"b/l.cs": lib, "b/m.cs": use, "p.project": P("Lib", "b/l.cs"), "q.project": P("X", "b/m.cs")}, ["p.project", "q.project"], "5"),
        ("unnamed projects of one folder", {"a/m.cs": use.replace("Lib", "a"), "a/l.cs": lib, "a/p.project": P("", "l.cs"), "a/q.project": P("", "m.cs")}, ["a/p.project", "a/q.project"], "5"),
        ("unnamed projects of one folder, chosen", {"a/m.cs": use.replace("Lib", "a"), "a/l.cs": lib, "a/p.project": P("", "l.cs"), "a/q.project": P("", "m.cs")}, ["a/p.project", "a/q.project", "-e", "a1"], "5"),
        ("plain", {"a/m.cs": ok}, ["a/m.cs"], "7"), ("same file twice", {"a/m.cs": ok}, ["a/m.cs", "a/m.cs"], "7"), ("optimize level 3", {"m.cs": ok}, ["m.cs", "-O", "3"], "7"),
        ("long options", {"m.cs": ok}, ["m.cs", "--optimize", "3"], "7"),
    ]
    for name, files, args, exp in CS:
        for head in (0, 1):
            def fn(name=name, files=files, args=args, exp=exp, head=head):
                d = new_dir()
                try:
                    for f, t in files.items(): write(d, f, t)
                    os.makedirs(d + "/out")
                    r = run_cmd([APRIL, "run"] + ([SYSTEM] + args if head else args + [SYSTEM]) + ["-o", "out"], d)
                    if exp is None: good = not r.timeout and r.rc not in (0, 139, 134, -11, -6) and r.lines() not in (["7"], ["8"], ["5"])
                    else: good = not r.timeout and r.rc == 0 and r.lines() == [exp]
                    return None if good else {"src": "// %s" % name, "opt": 0, "exp": exp or "refused", "got": "rc %s %s" % (r.rc, r.out[:300]), "detail": name}
                finally: shutil.rmtree(d, ignore_errors=True)
            yield "mistake: %s %d" % (name, head), 1, fn

def run(ex, tier):
    deep = tier == "thorough"
    for name, gen in (("projects", projects), ("choices", choices), ("sources", sources), ("mistakes", mistakes)):
        if not ONLY or ONLY in name: ex.check(name, gen(deep))

if __name__ == "__main__":
    main("C28", run, "exhaustive enumeration of placements, layouts, ways and orders of naming files, projects and solutions, each built and run by the real april, against a model of which files and assemblies a name means")
