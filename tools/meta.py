"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
P = []
TECH = ("bounded symbolic execution of the Python source (exact polynomial "
        "domain, path forking) with z3 verdicts and replay")


def prop(id, title, statement, over, q, why, files, mech, note, observe=None):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier={"over": over, "text": q}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [
            {"name": n, "where": w} for n, w in mech],
            **({"observe_at": observe} if observe else {})}), note))


NA = []

exec(open(os.path.join(HERE, "tools", "meta_table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, numpy; print(z3.get_version_string())\"",
    "checks": [], "not_applicable": []}
for p, note in P:
    if os.path.exists(os.path.join(HERE, "props", p["id"] + ".py")):
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {p['id']} --tier thorough",
            "technique": TECH, "level": "other", "level_note": note})
    else:
        man["not_applicable"].append({"property": p["id"],
                                      "reason": note})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
try:
    import sys
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p, _ in P:
        jsonschema.validate(p, s)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(P), "properties", len(man["checks"]), "checks")
except ImportError:
    pass
