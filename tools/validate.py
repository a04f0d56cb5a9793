import json, jsonschema
for f, s in (("MANIFEST.json", "MANIFEST"),):
    jsonschema.validate(json.load(open("/verif/" + f)), json.load(open("/root/.vp/%s.schema.json" % s)))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("/verif/properties.jsonl"):
    jsonschema.validate(json.loads(l), sch)
import glob
for f in glob.glob("/verif/evidence/P??.json"):
    jsonschema.validate(json.load(open(f)), json.load(open("/root/.vp/EVIDENCE.schema.json")))
print("valid")
