#!/usr/bin/env python3-vt
"""writes MANIFEST.json from props.CHECKS and the property list"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
import props
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = getattr(props, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[])
for i in ids:
    if i in props.CHECKS:
        c = props.CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
                                technique=c["technique"], level="model_checking", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
m["notes"] = "TLA+ specification in spec/, checked with TLC; the real library is driven by harness/ and judged by the trace specifications. No hooks in /repo. Known findings and repairs: known_findings.json."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")
