"""add_known.py PROPERTY FINDING-ID DUMP [WHAT]: adds the failures of a SW_DUMP file to known_findings.json (by hand only)."""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p))
prop, fid, dump = sys.argv[1:4]
keys = [json.loads(l)["key"] for l in open(dump)]
for f in d["findings"]:
    if f["id"] == fid:
        break
else:
    f = {"id": fid, "property": prop, "what": sys.argv[4], "cases": []}
    d["findings"].append(f)
if len(sys.argv) > 4:
    f["what"] = sys.argv[4]
f["cases"] = sorted(set(f["cases"]) | set(keys))
json.dump(d, open(p, "w"), indent=1)
print(len(f["cases"]))
