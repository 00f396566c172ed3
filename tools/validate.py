"""Validate the interface files against the schemas (run with /opt/veriftools/pyvenv/bin/python)."""
import json, glob, jsonschema
S = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), S("MANIFEST"))
for l in open("/verif/properties.jsonl"): jsonschema.validate(json.loads(l), S("PROPERTIES"))
for f in glob.glob("/verif/evidence/C??.json"): jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("ok")
