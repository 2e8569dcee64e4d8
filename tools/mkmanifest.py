"""Writes /verif/MANIFEST.json from the registered checks and properties.jsonl."""
import importlib, json, os, pkgutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import core
import vlib
for m in pkgutil.iter_modules(vlib.__path__):
    if m.name.startswith("c_"):
        importlib.import_module("vlib." + m.name)
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in core.REGISTRY:
        n = NOTES[i]
        checks.append({"property": i,
                       "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
man = {"version": 1, "setup_cmd": "bash bin/setup.sh",
       "hooks": {"guard": "verif", "enable": "no hooks are compiled into /repo: the drivers are new packages added with 'go build -overlay'", "source_commits": []},
       "checks": checks, "not_applicable": na,
       "notes": "TLA+ specifications in spec/, checked with TLC and bound to the code by replaying their behaviours through the drivers in harness/ and by validating recorded executions against them."}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
