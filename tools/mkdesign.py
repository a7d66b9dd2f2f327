#!/opt/veriftools/pyvenv/bin/python
"""DESIGN.md = design_head.md + one section per property (from props/*.py, seeded/*) + design_tail.md"""
import json, os, sys, glob, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/dv", V + "/specs", V + "/props"]
o = open(V + "/tools/design_head.md").read()
res = {}
p = V + "/tools/seed_results.txt"
if os.path.exists(p):
    for l in open(p):
        w = l.split(None, 1)
        if len(w) == 2:
            res[w[0]] = w[1].strip()
for l in open(V + "/properties.jsonl"):
    pr = json.loads(l)
    pid = pr["id"]
    o += "\n### %s %s\n\n" % (pid, pr["title"])
    if not os.path.exists(V + "/props/%s.py" % pid):
        o += "Not claimed (see MANIFEST.json).\n"
        continue
    m = importlib.import_module(pid)
    js = m.jobs()
    o += m.NOTE + "\n\n"
    if js:
        o += "* under contract (%d): %s\n" % (len(js), ", ".join(j.name for j in js))
    o += "* replay harness / bounded: %s\n" % getattr(m, "RULE", "")
    for b in getattr(m, "BOUNDED", []):
        o += "* bounded only: %s\n" % b
    for a in getattr(m, "ASSUMPTIONS", []):
        o += "* assumed: %s\n" % a
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(f))
        if d["property"] == pid:
            n = os.path.basename(os.path.dirname(f))
            o += "* planted `%s`: %s (needs: %s) - %s\n" % (n, d["what_it_breaks"], d["needs"], res.get(n, "caught by ./check %s" % pid))
o += "\n" + open(V + "/tools/design_tail.md").read() + "\n```\n" + open(V + "/known-findings.txt").read() + "```\n"
open(V + "/DESIGN.md", "w").write(o)
