"""C11, C12: parsing expositions, rendering results."""
import json, random
from .core import check


@check("C11", ["documents are sequences of the lines of Parse.tla, which covers each lexical form of the text format once or more"])
def c11(c):
    r = c.model_ok(c.tlc("Parse", dict(MaxLen=c.pick(2, 3), Walks=c.pick(2000, 20000), WalkLen=c.pick(8, 12)),
                         invariants=["OneEach"], action_constraint="Emit"))
    rng = random.Random(c.seed)
    tests, exps = [], []
    for x in r.lines:
        tests.append({"text": x["text"], "ex": x["ex"], "now": rng.randrange(5), "nl": rng.random() < 0.7,
                      "rep": rng.choice([2, 50, 4000, c.pick(4000, 60000)]) if rng.random() < 0.02 and x["text"] else 1,
                      "pre": rng.choice([1, 60, 1100, c.pick(6000, 60000)]) if rng.random() < 0.03 else 0})
        e = x["exp"]
        for s in e["samples"]:
            if s["ls"] == []:
                s["ls"] = {}
            if s["v"] == "1e3":
                s["v"] = "1000"
        exps.append(e)
        c.count_ops(["ok-%s" % e["ok"]])

    c.compare("text", "parse", tests, exps,
              lambda t, e, o: "parsing %s: expected %s, got %s" % (json.dumps(t), json.dumps(e), json.dumps(o)[:800]))
    c.require_ops(["ok-True", "ok-False"])
    c.sample({"document": tests[-1]["text"], "additional": tests[-1]["ex"], "expected": exps[-1]})


@check("C12", ["samples are made of the driver's tables of label sets, timestamps and values; string results are left out",
               "a rendering is read back by encoding/json, yaml.v2 and a reader of the Prometheus sample notation"])
def c12(c):
    nl, nt, nv = c.drive("text", "sizes", [{}])[0]["out"]
    r = c.model_ok(c.tlc("Output", dict(NLabels=nl, NTimes=nt, NValues=nv, Walks=c.pick(500, 8000)), action_constraint="Emit"))
    tests = [{k: x[k] for k in ("r", "f", "c")} for x in r.lines]
    rng = random.Random(c.seed)
    for t in tests:
        if t["r"]["kind"] != "scalar" and len(t["r"]["series"]) > 0 and rng.random() < 0.01:
            t["rep"] = rng.choice([2, 30, 700])
    exps = [x["exp"] for x in r.lines]
    for x in r.lines:
        c.count_ops([x["f"] or "empty", x["r"]["kind"], "ok-%s" % x["exp"]["ok"]])
    c.compare("text", "output", tests, exps,
              lambda t, e, o: "rendering %s: expected %s, got %s" % (json.dumps(t), json.dumps(e), json.dumps(o)[:800]))
    c.require_ops(["json", "yaml", "prometheus", "xml", "vector", "matrix", "scalar", "ok-True", "ok-False"])
    c.sample({"result": tests[-1], "expected": exps[-1]})
