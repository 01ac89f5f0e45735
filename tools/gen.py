#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/catalog.py and the check registry"""
import sys, os, json
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.path.insert(0, os.path.join(here, "tools"))
import catalog
from sa import props
NA = getattr(catalog, "NA", {})
checks = []; na = []
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in catalog.P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps({k: v for k, v in d.items() if k[0] != "_"}) + "\n")
        i = d["id"]
        if i in props.REGISTRY:
            c = {"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": "static analysis: " + d["_tech"], "level": "other", "level_note": d["_note"]}
            checks.append(c)
        else: na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
assert set(props.REGISTRY) <= set(d["id"] for d in catalog.P), set(props.REGISTRY) - set(d["id"] for d in catalog.P)
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(here, "properties.jsonl")): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("schemas ok")
except ImportError: pass
