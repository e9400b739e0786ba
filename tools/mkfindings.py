#!/usr/bin/env python3
"""Writes the "fixed:" lines of known-findings.txt from /repo's fix commits (findings are kept by hand in tools/findings.txt)."""
import subprocess, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = {l.split(None, 1)[0]: l.split(None, 1)[1].strip() for l in open(os.path.join(V, "tools/fixprops.txt")) if l.strip()}
out = [l.rstrip("\n") for l in open(os.path.join(V, "tools/findings.txt"))] if os.path.exists(os.path.join(V, "tools/findings.txt")) else []
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    m = re.search(r"\s*\[(C\d+)[^\]]*\]$", s)
    p = m.group(1) if m else P[h]
    out.append("fixed: property=%s %s %s" % (p, h, re.sub(r"\s*\[C\d+[^\]]*\]$", "", s)))
open(os.path.join(V, "known-findings.txt"), "w").write("\n".join(out) + "\n")
