"""Writes MANIFEST.json from properties.jsonl and the META of each check."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", pid.lower() + ".py")):
        m = importlib.import_module(pid.lower()).META
        checks.append(dict(property=pid,
                           quick_cmd=f"python3 run.py check {pid} --tier quick",
                           thorough_cmd=f"python3 run.py check {pid} --tier thorough",
                           technique=m["technique"], level=m.get("level", "model_checking"),
                           level_note=m["note"]))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "not built yet")))
man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
           notes="One TLA+ specification per check under spec/, bound to the code by replaying TLC's "
                 "behaviours through the harnesses under harness/. No hooks in /repo are needed.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
