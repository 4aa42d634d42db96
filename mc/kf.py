#!/usr/bin/env python3
"""Writes known_findings.json: the findings of findings.py and an entry for every fix: commit of /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # words of the subject -> property it broke
 "array index": "C14", "multi-dimensional": "C14", "debug line": "C09", "size of the element variable": "C14", "NullReference": "C15", "run finally": "C08",
 "rethrow": "C08", "passed through": "C07", "new line after an ulong": "C01", "do-while": "C07", "token enumerator": "C19", "second operand of &&": "C03",
 "condition expression": "C05", "uint32 with signed": "C01", "primitive value for a null": "C15", "value of an assignment": "C06", "uint64 with a float": "C04",
 "own type as constants": "C17", "x + 0": "C17", "cannot be computed": "C17", "optimize level": "C17", "exponent": "C19", "exactly once": "C05",
 "clear a struct": "C11", "nearest value": "C04"}
try:
    from findings import FINDINGS, EXTRA_MAP
except ImportError:
    FINDINGS, EXTRA_MAP = [], {}
MAP = {**EXTRA_MAP, **MAP}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    p = next((v for k, v in MAP.items() if k in s), None)
    assert p, "no property for: " + s
    fixed.append("fixed: property=%s %s %s" % (p, h, s[5:]))
json.dump({"findings": FINDINGS, "fixed": fixed}, open(V + "/known_findings.json", "w"), indent=1)
