"""MANIFEST.json from the checks present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python pv/run.py %s --tier %s"
checks, na = [], []
notes = {}
p = os.path.join(R, "tools", "level_notes.json")
if os.path.exists(p):
    notes = json.load(open(p))
for line in open(os.path.join(R, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(R, "pv", "checks", i.lower() + ".py")):
        checks.append(dict(
            property=i, quick_cmd=PY % (i, "quick"),
            thorough_cmd=PY % (i, "thorough"),
            technique="property-based testing (Hypothesis generators, "
                      "explicit oracle, shrinking to a replay file)",
            level="exploration",
            level_note=notes.get(i, "generated-input search against an "
                                 "independent oracle; no exhaustive claim")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python pv/setup_check.py",
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
