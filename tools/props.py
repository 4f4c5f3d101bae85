"""The list of properties; generates properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks_config import CHECKS

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None, technique="", note="", hook=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "hook_needed": hook}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, technique, note))


D = "include/richdem/"
exec(open(os.path.join(V, "tools", "props_data.py")).read())

NOT_APPLICABLE = globals().get("NA", [])

with open(V + "/properties.jsonl", "w") as f:
    for d, _, _ in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

na_ids = {x["property"] for x in NOT_APPLICABLE}
checks = []
for d, tech, note in P:
    if d["id"] in CHECKS:
        checks.append({"property": d["id"], "quick_cmd": "./check %s --tier quick" % d["id"], "thorough_cmd": "./check %s --tier thorough" % d["id"],
                       "technique": "property-based testing: " + tech, "level": "exploration",
                       "level_note": note})
    elif d["id"] not in na_ids:
        NOT_APPLICABLE.append({"property": d["id"], "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "true", "hooks": {"guard": "RICHDEM_VERIF", "enable": "no hooks were needed: the checks compile /repo's sources unmodified", "source_commits": []},
     "checks": checks, "not_applicable": NOT_APPLICABLE,
     "notes": "Every check rebuilds from /repo's working tree (./check compiles the harness in checks/ against /repo/include and /repo/src) and runs generated cases in forked workers. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(P), "properties,", len(checks), "checks")
