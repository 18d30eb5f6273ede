#!/usr/bin/env python3
"""Regenerates known_findings.txt from tools/fixes.txt (commit property) and tools/findings.txt."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = ["# finding: property=ID section=SECTION key=KEY what fails   (recorded, not repaired; the check prints KNOWN-FINDING for exactly this section/key)",
     "# fixed: property=ID commit what failed   (repaired in /repo; suppresses nothing)"]
f = os.path.join(V, "tools", "findings.txt")
if os.path.exists(f):
    o += [l.rstrip("\n") for l in open(f) if l.strip()]
for l in open(os.path.join(V, "tools", "fixes.txt")):
    if l.strip():
        c, p = l.split()[:2]
        s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True).stdout.strip()
        h, m = s.split(" ", 1)
        assert m.startswith("fix: ")
        o.append("fixed: property=%s %s %s" % (p, h, m[5:]))
n = int(subprocess.run("git -C /repo log --format=%s 7325dda..HEAD | grep -c ^fix:", shell=True, capture_output=True, text=True).stdout)
k = sum(l.startswith("fixed") for l in o)
print("fixes listed", k, "of", n)
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(o) + "\n")
