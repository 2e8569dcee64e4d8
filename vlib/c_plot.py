"""C27 to C30: plotting."""
import json, random
from .core import check


@check("C27", ["timestamps and values are drawn from ascending tables with gaps from 1 to 1e300"])
def c27(c):
    nt, nv, _, _ = c.drive("plot", "sizes", [{}])[0]["out"]
    depth = 8
    r = c.model_ok(c.tlc("Axes", dict(NT=nt, NV=nv, Depth=depth), simulate=c.pick(2500, 30000), depth=depth + 2,
                         invariants=["Covers", "Tight"], action_constraint="Emit"))
    tests = [[{k: h[k] for k in ("g", "kind", "k", "given")} for h in x] for x in r.lines]
    exps = [[h["exp"] for h in x] for x in r.lines]
    # first and last points and series standing for many
    rng = random.Random(c.seed)
    for t in tests:
        if rng.random() < 0.3:
            for h in t:
                h.update(rng.choice([{"front": 1}, {"front": rng.choice([150, 1500, 1501])}, {"back": rng.choice([150, 1500])}, {"front": 5000, "back": 5000},
                                     {"frontseries": rng.choice([20, 70, 150])}, {"backseries": rng.choice([70, 150])}, {}]))
    for x in r.lines:
        for h in x:
            c.count_ops([h["kind"]] + (["odd"] if any(p[1] > nv for s in h["g"] for p in s) else []) +
                        (["empty"] if not any(h["g"]) else []))

    def describe(t, e, o):
        if not isinstance(o, list) or len(o) != len(e):
            return "axes of graphs: %s" % json.dumps(o)
        i = next(i for i in range(len(e)) if o[i] != e[i])
        return "axes of graph %d: %s: expected ranks %s (minimum and maximum of time, of value), got %s" % (i, json.dumps(t[:i + 1])[-700:], e[i], o[i])
    c.compare("plot", "axes", tests, exps, describe)
    c.require_ops(["auto", "given", "axes", "range", "odd", "empty"])
    c.sample({"graphs": tests[0][:2], "expected": exps[0][:2]})


def laws(c, part, walks, rows, cols, pad):
    _, _, na, ns = c.drive("plot", "sizes", [{}])[0]["out"]
    r = c.model_ok(c.tlc("PlotGen", dict(Walks=walks, MaxRows=rows, MaxCols=cols, NAff=na, NScale=ns, MaxPts=c.pick(14, 30), Pad=pad),
                         action_constraint="Emit"))
    recs, tests = [], []
    for n, x in enumerate(r.lines):
        tests.append(dict(x, view=n % 3 == 0 and not x["dense"]))
        c.count_ops(["dense"] * x["dense"] + ["busy"] * x["busy"] + ["big " + x["big"]] * (x["big"] != ""))
    outs = c.drive("plot", part, tests, per_test=20)
    shown = []
    for t, o in zip(tests, outs):
        out = o.get("out")
        if isinstance(out, dict):
            recs.append(out)
            shown.append(t)
            c.count_ops(["view" if t["view"] else "direct", "scale-%d" % t["sc"], "affine-%d" % t["aff"]])
        elif out is not None or "out" not in o:
            c.violation("%s: %s" % (json.dumps(t), json.dumps(o)[:600]), dict(driver="plot", mode=part, test=t, expected="a graph within the laws"))
    for rec, t in zip(recs, shown):
        rec["t"] = t
    c.check_records("PlotLaws", recs, lambda rec, x: "the laws %s of plotting do not hold for %s: %s" % (
        x["laws"], json.dumps(rec["t"]), json.dumps({k: v for k, v in rec.items() if k not in ("t", "axes", "lit")})[:1500]),
        constants=dict(Part=part), replay=lambda rec: dict(driver="plot", mode=part, test=rec["t"], expected="a graph within the laws"))
    c.require_ops(["big long", "big far", "big many", "dense", "busy", "view", "direct"] + ["scale-%d" % (i + 1) for i in range(ns)] + ["affine-%d" % (i + 1) for i in range(na)])
    c.sample({"case": tests[-1]})
    return recs


@check("C28", ["labels are of single-width characters", "the extent of the data is finite and its numbers are not denormal"])
def c28(c):
    recs = laws(c, "ticks", c.pick(8000, 60000), 12, 40, 12)
    c.notes["graphs with room for a plot"] = sum(r["irows"] > 0 and r["icols"] > 0 for r in recs)
    c.notes["graphs without"] = sum(r["irows"] == 0 or r["icols"] == 0 for r in recs)


@check("C29", ["the extent of the data is finite and its numbers are not denormal", "times of a series strictly ascend"])
def c29(c):
    recs = laws(c, "draw", c.pick(6000, 60000), 6, 14, 12)
    c.notes["points"] = sum(len(s["pts"]) for r in recs for s in r["series"])
    c.notes["averaged points"] = sum(len(p["of"]) > 1 for r in recs for s in r["series"] for p in s["pts"])
