"""Regenerate MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "model checking: exhaustive bounded exploration of the real "
               "code against a reference model",
}
LEVEL_NOTE = ("Exhaustive enumeration of the bounded configuration and "
              "history space stated in DESIGN.md, executed on the real code "
              "built from the working tree.")

checks = []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(line) for line in f if line.strip()]
notes = {}
path = os.path.join(HERE, "tools", "techniques.json")
if os.path.exists(path):
    with open(path) as f:
        notes = json.load(f)
missing = []
for p in props:
    pid = p["id"]
    if not os.path.exists(os.path.join(HERE, "mc", pid.lower() + ".py")):
        missing.append(pid)
        continue
    n = notes.get(pid, {})
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % pid,
        "thorough_cmd":
            "/opt/venv/bin/python check.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": n.get("technique", TECH["default"]),
        "level": "model_checking",
        "level_note": n.get("level_note", LEVEL_NOTE),
    })
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --self-test",
    "checks": checks,
    "not_applicable": [],
    "notes": "Every check builds the compiled extension from /repo's working "
             "tree in a scratch directory that it removes afterwards.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print("claimed", len(checks), "missing", missing)
