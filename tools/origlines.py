#!/usr/bin/env python3
"""Checks that every line a planted bug removes or replaces is a line of the original repository."""
import glob, re, subprocess
base = subprocess.run("git -C /repo log --format=%H --reverse | head -1", shell=True, text=True, stdout=subprocess.PIPE).stdout.strip()
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, n, orig, own = None, 0, 0, 0
    for l in open(p):
        if l.startswith("--- a/"): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.search(r"-(\d+)", l).group(1))
        elif l.startswith("+"): pass
        elif l.startswith("-"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", "-L", "%d,%d" % (n, n), f], text=True, stdout=subprocess.PIPE).stdout
            (orig := orig + 1) if b.lstrip("^").startswith(base[:39]) else (own := own + 1); n += 1
        elif l.startswith(" "): n += 1
    print(p.split("/")[-2], "original", orig, "own", own, "" if orig and not own else "  <-- check")
