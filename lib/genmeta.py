"""properties.jsonl and MANIFEST.json from lib/conf/props.py and the registry"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
from conf import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = {p["id"] for p in props.CLAIMED}
assert ids == set(registry.RULES), ids ^ set(registry.RULES)
allp = sorted(props.CLAIMED + props.NOT_APPLICABLE, key=lambda p: p["id"])
assert len({p["id"] for p in allp}) == len(allp)
for p in allp:
    for f in p["anchors"]["files"]:
        if not os.path.exists(os.path.join("/repo", f)):
            print("no such file:", p["id"], f)
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in allp:
        fh.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": p["_technique"], "level": "other", "level_note": p["_note"]}
                for p in sorted(props.CLAIMED, key=lambda p: p["id"])],
     "not_applicable": [{"property": p["id"], "reason": p["_reason"]} for p in props.NOT_APPLICABLE],
     "notes": "Static analysis only: tool/efacts.cc extracts the resolved program of every unit of /repo/src, lib/rules decides."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
