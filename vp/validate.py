"""Validate the interface files against their schemas (run with python3-vt)."""
import json, jsonschema, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/root/.vp/"
ps = json.load(open(S + "PROPERTIES.schema.json")); n = 0
for l in open(V + "/properties.jsonl"):
    d = json.loads(l); jsonschema.validate(d, ps) if ps.get("type") != "array" else jsonschema.validate([d], ps); n += 1
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open(S + "MANIFEST.schema.json")))
es = json.load(open(S + "EVIDENCE.schema.json"))
for f in glob.glob(V + "/evidence/*.json"): jsonschema.validate(json.load(open(f)), es)
print("valid:", n, "properties")
