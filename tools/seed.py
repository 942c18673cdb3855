#!/usr/bin/env python3
"""Plant bugs described in a definitions file into /verif/seeded, after checking each
in /repo: applies, stable tests pass, demo exits 0 without and nonzero with it.
usage: seed.py defs.py [id ...]   (defs.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)])"""
import json, os, subprocess, sys, runpy
REPO = "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, cwd=REPO, text=True, capture_output=True, **k)
def main():
    defs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    assert not sh("git status --porcelain -uno").stdout.strip(), "repo dirty"
    for b in defs:
        if want and b["id"] not in want:
            continue
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        demo = b["demo"]
        if not demo.startswith("#!"):
            open(d + "/demo.py", "w").write(demo)
            demo = ('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d)
        try:
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT matches", s.count(old), "times:", old); bad = True; break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            open(d + "/patch.diff", "w").write(sh("git diff").stdout)
            t = "/tmp/seedtest.json"
            sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh " + t)
            passed = set(json.load(open(t))["passed"])
            lost = [x for x in stable if x not in passed]
            r1 = sh("bash %s/demo.sh" % d)
        finally:
            sh("git checkout -- .")
        ok = r0.returncode == 0 and r1.returncode != 0 and not lost
        print(b["id"], "OK" if ok else "BAD", "demo clean", r0.returncode, "bug", r1.returncode, "lost", lost)
        if r0.returncode:
            print(r0.stdout[-800:], r0.stderr[-800:])
        if ok and r1.returncode == 124:
            print("  (demo timed out with the bug)")
        if not ok:
            print(r1.stdout[-500:], r1.stderr[-500:])
main()
