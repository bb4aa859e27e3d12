#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes and confirms planted bugs. SPEC.py defines BUGS = [dict(id, property, file, old, new, needs, what, demo)];
each is applied in a scratch copy of /repo (bind-mounted over /repo in a private mount namespace, so the build and test scripts
see it), and kept in /verif/seeded only if it builds, passes the stable tests, and its demo tells it from the unchanged tree."""
import json, os, shutil, subprocess, sys
SB = "/tmp/sb"; V = "/verif/seeded"
SH = '''#!/bin/bash
# exit 0: behaviour as it should be; nonzero: the property is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
gcc -std=gnu11 -w -D_GNU_SOURCE -I inc "$d/demo.c" lib/libvita.a -lm -o "$t/demo" || exit 3
cd "$t" && timeout 60 ./demo
'''
def ns(cmd):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && cd /repo && %s" % (SB, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
def git(*a): return subprocess.run(["git", "-C", SB + "/repo"] + list(a), stdout=subprocess.PIPE, text=True).stdout
def main():
    g = {}; exec(open(sys.argv[1]).read(), g); want = set(sys.argv[2:])
    shutil.rmtree(SB, ignore_errors=True); os.makedirs(SB); subprocess.run(["cp", "-a", "/repo", SB + "/repo"], check=True)
    base = git("rev-list", "--max-parents=0", "HEAD").split()[0]
    assert ns("bash /opt/vp/build.sh").returncode == 0
    todo = [b for b in g["BUGS"] if not want or b["id"] in want]; tmp = {}
    for b in todo:
        d = SB + "/d/" + b["id"]; os.makedirs(d); tmp[b["id"]] = d
        open(d + "/demo.c", "w").write(b["demo"].lstrip("\n")); open(d + "/demo.sh", "w").write(b.get("sh", SH)); os.chmod(d + "/demo.sh", 0o755)
        r = ns("bash %s/demo.sh" % d); b["clean"] = r.returncode
        if r.returncode: print(b["id"], "REJECT: demo fails on the unchanged tree", r.returncode, r.stdout[-600:])
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
    for b in todo:
        if b["clean"]: continue
        git("checkout", "--", ".")
        edits = b.get("edits") or [(b["file"], b["old"], b["new"])]; bad = None
        for f, o, n in edits:
            p = SB + "/repo/" + f; s = open(p).read(); k = b.get("nth", 0)
            if s.count(o) < 1 or (s.count(o) > 1 and "nth" not in b): bad = "%d matches in %s" % (s.count(o), f); break
            i = -1
            for _ in range(k + 1): i = s.index(o, i + 1)
            open(p, "w").write(s[:i] + n + s[i + len(o):])
        if bad: print(b["id"], "REJECT:", bad); continue
        patch = git("diff")
        r = ns("bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json" % SB)
        if r.returncode not in (0, 1): print(b["id"], "REJECT: build", r.stdout[-400:]); continue
        o = json.load(open(SB + "/o.json")); o = o.get("tests", o)
        ok = {k for k, v in o.items() if v in ("pass", "passed", True)} if isinstance(o, dict) and not "passed" in o else set(o["passed"])
        if stable - ok or len(ok) < 14: print(b["id"], "REJECT: tests", len(ok), stable - ok); continue
        r = ns("bash %s/demo.sh" % tmp[b["id"]])
        if r.returncode == 0: print(b["id"], "REJECT: demo passes with the change"); continue
        q = V + "/" + b["id"]; shutil.rmtree(q, ignore_errors=True); shutil.copytree(tmp[b["id"]], q)
        open(q + "/patch.diff", "w").write(patch)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(q + "/meta.json", "w"), indent=1)
        print(b["id"], b["property"], "kept; demo exits", r.returncode, r.stdout.strip()[-120:].replace("\n", " | "))
    git("checkout", "--", ".")
main()
