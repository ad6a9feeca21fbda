#!/opt/veriftools/pyvenv/bin/python3
"""write properties.jsonl and MANIFEST.json from props.py and checks.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "engine"))
import props, checks
for p in props.P:
    for f in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", f)), (p["id"], f)
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props.P:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                            "technique": c.get("technique", "symbolic execution of the compiled LLVM IR, assertions decided by z3 (SMT)"),
                            "level": c.get("level", "model_checking"), "level_note": (c["explain"] + " Bounds: " + c["bounds"])[:900]})
    else:
        m["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props.P:
    jsonschema.validate(p, sch)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
