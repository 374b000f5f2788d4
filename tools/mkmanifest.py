import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = getattr(__import__("checks"), "NOT_APPLICABLE", {})
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check rebuilds its harness from /repo's working tree (path dependency) and explores a stated finite space completely; see DESIGN.md. Known findings: known_findings.txt.",
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "model checking: exhaustive enumeration of a bounded input/configuration space on the real code against a reference model"),
            "level": c.get("level", "model_checking"),
            "level_note": c["covers"] + ". Assumes: " + ("; ".join(c["assumptions"]) or "nothing beyond the bounds") + ".",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "machinery not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
