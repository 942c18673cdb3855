#!/usr/bin/env python3
"""Regenerates DESIGN.md: the text below plus functions, bounds and exclusions from props/*.py
(run with python3-vt)."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PROPS = {}
for l in open("properties.jsonl"):
    x = json.loads(l)
    PROPS[x["id"]] = x
# id -> (how it is decided and against what oracle, why the tests cannot)
HOW = {}
def how(i, method, cost):
    HOW[i] = (method, cost)
exec(open("design/how.py").read())
out = [open("design/head.md").read().rstrip(), "", "## The properties", ""]
for i, p in PROPS.items():
    out.append("### %s %s" % (i, p["title"]))
    out.append("")
    f = "props.%s" % i.lower()
    if not os.path.exists("props/%s.py" % i.lower()):
        out.append(HOW[i][0])
        out.append("")
        continue
    info = importlib.import_module(f).INFO
    out.append(p["statement"])
    out.append("")
    out.append("*Decided by.* " + HOW[i][0])
    out.append("")
    out.append("*Functions executed symbolically.* " + "; ".join(info["functions"]) + ".")
    out.append("")
    out.append("*Bounds.* " + info["bounds"].rstrip(".") + ".")
    out.append("")
    out.append("*Outside.* " + info["outside"].rstrip(".") + ".")
    if info.get("assumptions"):
        out.append("")
        out.append("*Assumes.* " + "; ".join(info["assumptions"]) + ".")
    out.append("")
    out.append("*Cost (quick, 8 cores).* " + HOW[i][1])
    out.append("")
rows = []
for b in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open("seeded/%s/meta.json" % b))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
out.append(open("design/tail.md").read().rstrip().replace("@BUGS@", "\n".join(rows)))
open("DESIGN.md", "w").write("\n".join(out) + "\n")
