"""Fills DESIGN.md from DESIGN.in.md, the entries and the planted bugs: python3 tools/design.py"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.path.insert(0, os.path.join(V, "tools"))
import text, props
out = []
for t in text.T:
    p = props.PROPS[t["id"]]
    parts = ", ".join("`%s` (%d cases quick, %d thorough)" % (x.label(), x.quick, x.thorough) for x in p["parts"])
    out.append("### %s — %s\n" % (t["id"], t["title"]))
    out.append("* Decided by: %s. Harness %s." % (t["_t"], parts))
    out.append("* Explored: %s" % t["quantifier"]["text"])
    out.append("* One case: %s. Required observations: %s." % (p["rule"], ", ".join("%s ≥ %d" % i for i in p.get("need", {}).items()) or "none"))
    out.append("* Bounds: %s" % t["_n"])
    out.append("* Beyond the tests: %s\n" % t["why_tests_cant"])
seed = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
f = os.path.join(V, "tools", "caught.txt")
if os.path.exists(f):
    for l in open(f):
        a = l.rstrip("\n").split("\t")
        if len(a) == 2: caught[a[0]] = a[1]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    seed.append("| %s | %s | %s. Breaks: %s | %s |" % (os.path.basename(d), m["property"], m["needs"], m["what_it_breaks"], caught.get(os.path.basename(d), "not yet run")))
s = open(os.path.join(V, "DESIGN.in.md")).read()
s = s.replace("@@PROPS@@", "\n" + "\n".join(out)).replace("@@SEEDED@@", "\n".join(seed)).replace("@@NOTED@@\n", "")
open(os.path.join(V, "DESIGN.md"), "w").write(s)
