#!/usr/bin/env python3
"""Prints KNOWN_FINDINGS: the recorded findings (known.txt) and the fix commits of /repo (fixmap.txt names their properties). Run by hand."""
import subprocess, os
here = os.path.dirname(os.path.abspath(__file__))
M = {l.rstrip("\n").split(" ", 1)[1]: l.split(" ", 1)[0] for l in open(os.path.join(here, "fixmap.txt"))}
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "5e2988c..HEAD"], text=True)
print("# Genuine defects of Ngineer found while these checks were built.")
print("# known: property=<id> key=<key> <what fails>   a finding that is recorded, not repaired; the check reports it as KNOWN-FINDING")
print("# fixed: property=<id> <commit> <what failed>   a repaired defect; suppresses nothing")
known = os.path.join(here, "known.txt")
if os.path.exists(known):
    print(open(known).read(), end="")
for l in log.splitlines():
    h, s = l.split(" ", 1)
    s = s.removeprefix("fix: ")
    print(f"fixed: property={M[s]} {h} {s}")
