"""C34: debug logging."""
import json
from .core import check


@check("C34", ["what completion writes into debug.log is not specified beyond there being something; directories are writable"])
def c34(c):
    runs = c.pick(5, 7)
    r = c.model_ok(c.tlc("DebugLog", dict(MaxRuns=runs, MaxOps=4, MaxProcs=3), simulate=c.pick(400, 4000), depth=6 * runs,
                         action_constraint="Emit", properties=["Grows"]))
    pq = c.build_command()
    tests, exps = [], []
    for x in r.lines:
        tests.append({"hist": x["hist"]})
        exps.append([{"answers": [a for a in h.get("answers", [])], "logs": h["logs"], "bad": None} for h in x["hist"]])
        for h in x["hist"]:
            ps = h.get("procs", [])
            c.count_ops([h["op"]] + ["old %d" % n for n in h.get("old", {}).values()] + ["place " + p["place"] for p in ps] + ["command" for p in ps if p["cmd"]] + [o for p in ps for o in p["ops"]] +
                        ["several at once" for d in ("d1", "d2") if sum(p["place"] == d for p in ps) > 1])

    def describe(t, e, o):
        if not isinstance(o, dict) or "out" not in o:
            return "runs %s: %s" % (json.dumps(t)[:500], json.dumps(o)[:800])
        o = o["out"]
        i = next(i for i in range(len(e)) if i >= len(o) or o[i] != e[i])
        got = o[i] if i < len(o) else {}
        return "step %d (%s): expected %s, got %s" % (i, json.dumps({k: v for k, v in t["hist"][i].items() if k in ("op", "procs", "d")}),
                                                    {k: v for k, v in e[i].items() if got.get(k) != v}, {k: v for k, v in got.items() if e[i][k] != v})
    c.compare("dbg", "history", tests, exps, describe, env={"VERIF_PQ": pq}, per_test=60, shards=8)
    c.require_ops(["run", "rotate", "command", "several at once", "named", "unnamed", "unnamed-many", "unnamed-flood", "complete", "own", "teardown"] +
                  ["old %d" % n for n in (0, 3, 5000, 60000)] + ["place " + p for p in ("unset", "empty", "missing", "file", "d1", "d2")])
    c.sample({"run": tests[0]["hist"][0], "expected": exps[0][0]})
