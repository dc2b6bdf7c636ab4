"""Fills the @@…@@ parts of tools/DESIGN.in into DESIGN.md from props, seeds and known findings."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vx.props import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
t = open(V + "/tools/DESIGN.in").read()
o = ["## Property by property", "", "Units are files of `specs/`; every property has its own bounded harness beside the proof. Quick checks take 2–60 s each on 8 cores, thorough ones 1–4 min.", ""]
for p in props:
    c = PROPS.get(p["id"])
    if not c:
        continue
    o.append("**%s %s.** *Units:* %s%s. %s *Assumed:* %s. *Bounded beside it:* %s." % (
        p["id"], p["title"], ", ".join("`%s`" % u for u in c["units"]),
        "; *theorems:* " + ", ".join("`%s`" % x for x in c["theorems"]) if c.get("theorems") else "",
        c["note"], "; ".join(c.get("assumptions", [])), "; ".join("`%s`: %s" % (h["bin"], h["bound"]) for h in c["harness"])))
    o.append("")
t = t.replace("@@PROPS@@", "\n".join(o).rstrip())
fx = {}
for l in open(V + "/known-findings.txt"):
    if l.startswith("fixed:"):
        _, pr, cm, *rest = l.split()
        fx.setdefault((cm, " ".join(rest)), []).append(pr.split("=")[1])
t = t.replace("@@FIXES@@", "\n".join("* %s (%s): %s." % (cm, ", ".join(ps), w) for (cm, w), ps in fx.items()))
s = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    s.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
t = t.replace("@@SEEDS@@", "\n".join(s))
na = ["* **%s**: %s" % (x["property"], x["reason"]) for x in man.get("not_applicable", [])]
t = t.replace("@@NA@@", "\n".join(na) or "Every listed property is claimed.")
open(V + "/DESIGN.md", "w").write(t)
