#!/usr/bin/env python3-vt
"""Lines of the anchored Python code that the quick checks execute symbolically (a diagnostic for
what the cases leave out).  usage: linecov.py OUTDIR C01 [C02 ...]"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)
from bbv import runner
OUT = sys.argv[1]
os.makedirs(OUT, exist_ok=True)
REPO = os.environ.get("BBV_REPO", "/repo") + "/Code/"
orig = runner.worker

def worker(prop, tier, inq, outq):
    f = open("%s/%s.%d" % (OUT, prop, os.getpid()), "w", 1)
    m = sys.monitoring
    m.use_tool_id(3, "linecov")
    def line(code, n):
        if code.co_filename.startswith(REPO):
            f.write("%s:%d\n" % (code.co_filename[len(REPO):], n))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, line)
    m.set_events(3, m.events.LINE)
    orig(prop, tier, inq, outq)
runner.worker = worker
for p in sys.argv[2:]:
    print(p, runner.main([p, "--tier", "quick"]), flush=True)
