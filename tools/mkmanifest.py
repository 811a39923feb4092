"Writes MANIFEST.json from the list of checks that exist."
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
src = open(os.path.join(HERE, "check.py")).read()
parts = dict(re.findall(r'"(C\d\d)": (\[[^\]]*\])', src))
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in parts:
        n = NOTES.get(pid, NOTES["default"])
        checks.append(dict(
            property=pid,
            quick_cmd=f"./check.py {pid} --tier quick",
            thorough_cmd=f"./check.py {pid} --tier thorough",
            technique=n["technique"], level="model_checking", level_note=n["note"],
        ))
    else:
        na.append(dict(property=pid, reason="not claimed yet: its check is still being built"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "unclaimed")
