"""Validate properties.jsonl, MANIFEST.json and evidence against the schemas (run with python3-vt)."""
import glob, json, os, jsonschema
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
ids = []
for l in open(f"{V}/properties.jsonl"):
    d = json.loads(l); jsonschema.validate(d, S("PROPERTIES")); assert len(d["title"]) <= 80, d["id"]; ids.append(d["id"])
assert len(ids) == len(set(ids))
if os.path.exists(f"{V}/MANIFEST.json"):
    m = json.load(open(f"{V}/MANIFEST.json")); jsonschema.validate(m, S("MANIFEST"))
    claimed = {c["property"] for c in m["checks"]}; na = {c["property"] for c in m.get("not_applicable", [])}
    assert claimed | na == set(ids) and not claimed & na, (set(ids) - claimed - na, claimed & na)
    for f in glob.glob(f"{V}/evidence/*.json"):
        jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("ok", len(ids))
