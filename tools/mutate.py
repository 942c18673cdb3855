#!/usr/bin/env python3
"""Run a property's quick check on mutants of a copy of the repository.
usage: mutate.py [-j N] [name-substring ...]"""
import os, runpy, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J = 2
defs = "tools/mutants.py"
if args and args[0] == "-j":
    J = int(args[1]); args = args[2:]
if args and args[0] == "-f":
    defs = args[1]; args = args[2:]
M = [m for m in runpy.run_path(os.path.join(HERE, defs))["M"] if m[3] and (not args or any(a in m[0] for a in args))]
def run(m):
    name, prop, f, old, new = m[:5]
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", d])
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) < 1:
        shutil.rmtree(d); return name, "NOMATCH", 0, ""
    s = s.replace(old, new, 1)
    open(p, "w").write(s)
    t = time.time()
    try:
        r = subprocess.run(["python3-vt", "check.py", prop, "--tier", "quick", "--jobs", str(max(1, 8 // J))], cwd=HERE,
                       env=dict(os.environ, BBV_REPO=d), text=True, capture_output=True, timeout=900)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, out = "TIMEOUT", ""
    open("/tmp/mut/%s.log" % name, "w").write(out)
    shutil.rmtree(d)
    return name, rc, time.time() - t, out
with ThreadPoolExecutor(J) as ex:
    for name, rc, t, out in ex.map(run, M):
        print(name, {0: "MISSED", 1: "caught"}.get(rc, rc), "%.0fs" % t, flush=True)
