#!/usr/bin/env python3
"""check.py <property id> | --all | --replay FILE"""
import importlib, json, os, pkgutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import core
import vlib

for m in pkgutil.iter_modules(vlib.__path__):
    if m.name.startswith("c_"):
        importlib.import_module("vlib." + m.name)


def replay(path):
    d = json.load(open(path))
    c = core.Check(d["property"])
    try:
        if "driver" not in d:
            print(json.dumps(d, indent=1))
            return 2
        o = c.drive(d["driver"], d["mode"], [d["test"]], args=d.get("args", ()), race=d.get("race", False), shards=1)[0]
        print("test:    ", json.dumps(d["test"]))
        print("expected:", json.dumps(d.get("expected")))
        print("observed:", json.dumps(o))
        return 0
    finally:
        c.cleanup()


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    ids = sorted(core.REGISTRY) if sys.argv[1:] == ["--all"] else sys.argv[1:]
    rc = 0
    for pid in ids:
        if pid not in core.REGISTRY:
            print("ERROR unknown property", pid)
            return 2
        rc = max(rc, core.run(pid))
    return rc


sys.exit(main())
