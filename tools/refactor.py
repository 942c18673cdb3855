#!/usr/bin/env python3
"""Apply each behaviour-preserving edit to a copy of the repository, run the stable tests
there and the quick checks of its properties: all have to be quiet.
usage: refactor.py [name-substring ...]"""
import json, os, runpy, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = sum((runpy.run_path(os.path.join(HERE, "tools", f))["R"] for f in ("refactors.py", "refactors_b.py", "refactors_c.py")), [])
for name, props, edits in R:
    if sys.argv[1:] and not any(a in name for a in sys.argv[1:]):
        continue
    d = "/tmp/refac/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/refac", exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    bad = None
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old not in s:
            bad = old
            break
        open(p, "w").write(s.replace(old, new, 1))
    if bad:
        print(name, "NOMATCH", repr(bad)[:150], flush=True)
        continue
    if edits[0][0].startswith("Code/"):
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "--ignore", "test_MPI_Work_Queue.py", "-p", "no:cacheprovider", "."], cwd=d + "/Code", capture_output=True, text=True)
        print(name, "tests:", r.stdout.strip().splitlines()[-1:], flush=True)
    for p in props:
        t = time.time()
        r = subprocess.run(["python3-vt", "check.py", p, "--tier", "quick", "--jobs", os.environ.get("JOBS", "8")], cwd=HERE,
                           env=dict(os.environ, BBV_REPO=d), text=True, capture_output=True)
        out = r.stdout + r.stderr
        open("/tmp/refac/%s_%s.log" % (name, p), "w").write(out)
        e = json.load(open(os.path.join(HERE, "evidence/%s.json" % p)))["coverage"]
        print("   ", name, p, "quiet" if r.returncode == 0 else "ALARM rc=%s" % r.returncode, "exhaustive" if e["exhaustive"] else "NOT EXHAUSTIVE %s" % str(e["inconclusive"])[:300], "%.0fs" % (time.time() - t), flush=True)
    shutil.rmtree(d)
