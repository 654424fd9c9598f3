#!/opt/veriftools/pyvenv/bin/python
"""Validate properties.jsonl, MANIFEST.json and evidence/*.json against the task's schemas."""
import json, sys, os, glob, re
import jsonschema
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ld = lambda p: json.load(open(p))
ps = ld("/root/.vp/PROPERTIES.schema.json")
ids = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); jsonschema.validate(p, ps); ids.append(p["id"])
    n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
    if n > 3: print("statement too long", p["id"], n)
assert len(set(ids)) == len(ids)
if os.path.exists(V + "/MANIFEST.json"):
    m = ld(V + "/MANIFEST.json"); jsonschema.validate(m, ld("/root/.vp/MANIFEST.schema.json"))
    c = {x["property"] for x in m["checks"]}; n = {x["property"] for x in m.get("not_applicable", [])}
    assert c | n == set(ids) and not (c & n), (c ^ set(ids))
es = ld("/root/.vp/EVIDENCE.schema.json")
for f in glob.glob(V + "/evidence/*.json"):
    jsonschema.validate(ld(f), es)
print("ok", len(ids))
