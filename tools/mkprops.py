"""Writes properties.jsonl and MANIFEST.json from the list below and vx/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vx.props import PROPS
VC = "crates/vertigo/src/"
CC = "crates/vertigo-cli/src/"
P = []
NA = {}

def p(id, title, statement, over, text, why, files, mech, observe=None, na=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
    if na: NA[id] = na

exec(open(os.path.join(V, "tools", "proplist.py"), encoding="utf-8").read())

with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
ids = [x["id"] for x in P]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "./check.sh %s" % i, "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c.get("level", "proof"),
                       "level_note": c["note"], **({"theorems": c["theorems"]} if c.get("theorems") else {})})
for i in PROPS:
    assert i in ids, i
na = [{"property": i, "reason": NA.get(i, "not built yet: its check is still to be written")} for i in ids if i not in PROPS]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Verus on functions taken mechanically from /repo's current source on every run; see DESIGN.md. Each check also runs the same contracts, bounded, on the compiled real code (counterexample search and replay); that part is labelled bounded in the evidence and is not counted as proved."}
hp = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hp):
    m["hooks"] = json.load(open(hp))
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x, s)
except ImportError:
    pass
print(len(P), "properties,", len(checks), "claimed")
