#!/usr/bin/env python3
"""Plants a bug: seed.py SPEC.py, SPEC defining ID PROP EDITS=[(file, old, new)] PROG EXP OPT NEEDS BREAKS.
Confirms that it builds, passes the tests and the demo, runs the check against it, undoes it and writes seeded/ID."""
import sys, os, subprocess, json, runpy, shutil
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = """#!/bin/bash
# Runs a program with the april of the current directory and compares what it prints.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$here"/*.cs "$d"/ && cd "$d" || exit 2
timeout 60 "$repo/bin/april" run -O %s demo.cs "$repo/System.apl" > out.txt 2> err.txt
sed 's/\\r$//' out.txt > got.txt
if cmp -s got.txt "$here/expected.txt"; then echo "as expected"; exit 0; fi
echo "unexpected output:"; diff got.txt "$here/expected.txt" | head -20; exit 1
"""
def main(spec):
    s = runpy.run_path(spec)
    d = "%s/seeded/%s" % (V, s["ID"])
    assert sh("git -C %s status --porcelain" % R).stdout == "", "repo not clean"
    os.makedirs(d, exist_ok=True)
    prog = s["PROG"]
    if "EntryPoint" not in prog:
        prog = "import System;\nusing System;\n" + s.get("DECLS", "") + "\nclass P {\n[EntryPoint]\npublic static void Main() {\n" + prog + "\n}\n}\n"
    open(d + "/demo.cs", "w").write(prog)
    open(d + "/expected.txt", "w").write("".join(str(x) + "\n" for x in s["EXP"]))
    open(d + "/demo.sh", "w").write(s.get("DEMO") or DEMO % s.get("OPT", 0)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    if "--nobuild" not in sys.argv: sh("bash /opt/vp/build.sh")
    r = sh("bash %s/demo.sh" % d, cwd=R); print("clean demo", r.returncode, r.stdout[:800])
    if r.returncode: shutil.rmtree(d); return
    try:
        for f, a, b in s["EDITS"]:
            t = open(R + "/" + f).read(); assert t.count(a) == 1, (f, a, t.count(a))
            open(R + "/" + f, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
        r = sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        o = json.load(open("/tmp/seed_o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in st if x not in o["passed"]]
        print("tests: passed", len(o["passed"]), "failed", len(o["failed"]), "missing", miss, r.stdout[-600:] if miss else "")
        r = sh("bash %s/demo.sh" % d, cwd=R); print("bug demo", r.returncode, r.stdout[:600])
        ok = not miss and r.returncode != 0
        if not ok: print("NOT KEPT"); shutil.rmtree(d); return
        for c in s.get("CHECKS", [s["PROP"]]):
            r = sh("python3 %s/mc/%s.py --no-build" % (V, c.lower())); print(c, "rc", r.returncode, r.stdout[-900:])
    finally:
        sh("git -C %s checkout -- ." % R)
for spec in [a for a in sys.argv[1:] if not a.startswith("--")]:
    print("=====", spec); main(spec); sys.argv.append("--nobuild") if False else None
