"""C01-C04: the sample store."""
import itertools, json, random
from .core import check


def norm(o):
    if isinstance(o, dict) and "values" in o:
        o = dict(o)
        if o["values"] == []:
            o["values"] = {}
        o["names"] = sorted(o["names"])
        o["values"] = {k: sorted(v) for k, v in o["values"].items()}
        o["sel"] = [sorted(x) for x in o["sel"]]
        o["data"] = [[[float(a), float(b)] for a, b in s] for s in o["data"]]
    return o


def project(o, keys):
    o = norm(o)
    if not isinstance(o, dict):
        return o
    return {k: v for k, v in o.items() if k in keys or k in ("odd", "error")}


def gen(c, label, series, maxtime, batch, depth, sim=0, every=1):
    r = c.tlc("Storage", dict(Series=set(series), MaxTime=maxtime, MaxBatch=batch, MaxDepth=depth, Sim=bool(sim), ObsEvery=every),
              invariants=["Ordered", "Exact"], properties=[] if sim else ["CleanExact"],
              action_constraint="Emit", simulate=sim or None, depth=depth + 1, label="Storage-" + label)
    c.model_ok(r)
    meta = [x["meta"] for x in r.lines if "meta" in x][0]
    seen, out = set(), []
    for x in r.lines:
        if "h" not in x:
            continue
        k = json.dumps(x["h"])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return meta, out


# how the samples of the specification are read: the values they have (each its
# own, all the same, or special ones), and how many of the concrete store one
# stands for
VALUES = 8


def coded(o, mode):
    """What is left of the samples' identities once they have such values."""
    if mode == 0 or not isinstance(o, dict) or "data" not in o:
        return o
    return dict(o, data=[[[t, 0.0 if mode == 1 else v % VALUES] for t, v in s] for s in o["data"]])


def replay_histories(c, meta, behs, keys, sim, rng, blocks=(), thick=()):
    tests, exps = [], []
    for x in behs:
        h = [{k: v for k, v in e.items() if k != "obs"} for e in x["h"]]
        if sim:
            for e, full in zip(h, x["h"]):
                e["o"] = full["obs"] != []
        else:
            h[-1]["o"] = True
        tests.append({"h": h, "tt": rng.randrange(4)})
        if blocks:
            tests[-1]["blocks"] = blocks[len(tests) % len(blocks)]
        if thick:
            tests[-1]["thick"] = thick[len(tests) % len(thick)]
        vm = tests[-1]["values"] = rng.randrange(3) if len(x["h"]) > 3 else 0
        c.count_ops(["values-%d" % vm])
        obs = [e["obs"] for e in x["h"] if e["obs"] != []] if sim else [x["obs"]]
        exps.append([project(coded(norm(o), vm), keys) for o in obs])
        c.count_ops(e["op"] for e in h)

    def eq(exp, out):
        return isinstance(out, list) and [project(o, keys) for o in out] == exp

    def desc(t, e, o):
        return "history %s: expected %s, got %s" % (json.dumps(t), json.dumps(e)[:600], json.dumps(o)[:600])
    c.compare("store", "history", tests, exps, desc, args=[json.dumps(meta)], eq=eq)
    c.sample({"behaviour": tests[len(tests) // 2]["h"], "expected": exps[len(tests) // 2][-1]})


def histories(c, keys, plan):
    rng = random.Random(c.seed)
    for (label, series, mt, mb, depth, sim, *every) in plan:
        meta, behs = gen(c, label, series, mt, mb, depth, sim, *every)
        # "blocks": every series of the specification stands for many
        replay_histories(c, meta, behs, keys, bool(sim), rng, c.pick((1100, 300), (1100, 300, 70000)) if label == "blocks" else (),
                         c.pick((40, 400), (40, 400, 3000)) if label == "thick" else ())
    c.require_ops(["load", "clean", "values-0", "values-1", "values-2"])


def plan(c):
    if c.quick:
        return [("deep", [3, 4], 2, 1, 4, 0),
                ("batch", [1, 2, 4], 2, 2, 2, 0),
                ("walk", [1, 2, 3, 4, 5, 6, 7], 6, 4, 14, 250),
                ("long", [2, 3, 4], 8, 12, 80, 6, 20),
                ("thick", [2, 4], 6, 24, 16, 24, 4),
                ("blocks", [1, 2, 3, 4, 5, 6, 7], 6, 4, 10, 8, 5)]
    return [("deep", [3, 4], 2, 1, 5, 0),
            ("deep2", [2, 6], 2, 1, 5, 0),
            ("batch", [2, 4], 2, 2, 3, 0),
            ("batch2", [1, 3, 4, 5], 2, 2, 2, 0),
            ("walk", [1, 2, 3, 4, 5, 6, 7], 7, 6, 40, 4000),
            ("walk2", [3, 4], 8, 3, 60, 2000),
            ("long", [2, 3, 4], 8, 20, 200, 60, 25),
            ("thick", [2, 4], 6, 40, 30, 60, 5),
            ("blocks", [1, 2, 3, 4, 5, 6, 7], 7, 4, 20, 60, 10)]


@check("C01", ["label values and timestamps are drawn from small sets, mapped to extreme int64 timestamps as well",
               "the store is used by one goroutine at a time (PeriodicData serialises it; see C08)"])
def c01(c):
    histories(c, ("data",), plan(c))
    r = c.model_ok(c.tlc("Iter", dict(MaxTime=c.pick(2, 3), MaxSamples=3, MaxDepth=c.pick(4, 5)),
                         properties=["NeverBack"], action_constraint="Emit"))
    rng = random.Random(c.seed)
    tests = [{"times": x["times"], "h": [{k: v for k, v in e.items() if k != "r"} for e in x["h"]], "tt": rng.randrange(4)}
             for x in r.lines]
    exps = [[e["r"] for e in x["h"]] for x in r.lines]
    for x in r.lines:
        c.count_ops(e["op"] for e in x["h"])
    c.compare("store", "iterate", tests, exps,
              lambda t, e, o: "iterating %s: expected %s, got %s" % (json.dumps(t), e, json.dumps(o)[:500]),
              args=["{}"])
    c.require_ops(["next", "seek"])


@check("C02", ["regular expressions are those of the table in Labels.tla, matched against its values"])
def c02(c):
    chunks = c.pick(1, 1)
    r = c.model_ok(c.tlc("Select", dict(Chunk=0, Chunks=chunks, Triples=c.pick(10, 120), Bunches=c.pick(4, 40)), invariants=["Complement"]))
    meta = [x["meta"] for x in r.lines if "meta" in x][0]
    n = len(meta["ls"])
    rng = random.Random(c.seed)
    small = [list(s) for k in range(0, c.pick(2, 3)) for s in itertools.combinations(range(1, n + 1), k + 1)]
    small.append([])
    tests = []
    for x in r.lines:
        if "ms" not in x:
            continue
        stores = [list(range(1, n + 1))]
        gone = [[]]
        # all stores of one or two (thorough: three) series would be many per combination: take the
        # whole universe, the accepted part, the rejected part, and a sample
        acc = list(x["acc"])
        rej = [i for i in range(1, n + 1) if i not in acc]
        for s in [acc, rej] + rng.sample(small, c.pick(4, 12)):
            s = list(s)
            rng.shuffle(s)
            stores.append(s)
            gone.append([])
        for _ in range(c.pick(1, 3)):
            k = rng.randrange(0, n + 1)
            perm = rng.sample(range(1, n + 1), n)
            stores.append(perm[:k])
            gone.append(perm[k:k + 6])
        tests.append({"ms": x["ms"], "acc": acc, "stores": stores, "gone": gone})
        c.count_ops(m["t"] for m in x["ms"])
    # every store of up to three series with every single matcher
    singles = [t for t in tests if len(t["ms"]) == 1]
    full = [list(s) for k in range(1, 4) for s in itertools.combinations(range(1, n + 1), k)]
    for t in singles:
        tests.append({"ms": t["ms"], "acc": t["acc"], "stores": full, "gone": [[]] * len(full)})
    c.notes["selections"] = sum(len(t["stores"]) for t in tests)
    c.compare("store", "select", tests, [[]] * len(tests),
              lambda t, e, o: "matchers %s (accepting %s of %s): %s" % (
                  json.dumps(t["ms"]), t["acc"], json.dumps(meta["ls"]), json.dumps(o)[:700]),
              args=[json.dumps(meta)])
    histories(c, ("sel",), [p for p in plan(c) if p[0] in ("walk", "blocks")])
    c.require_ops(["=", "!=", "=~", "!~"])
    c.sample({"matchers": tests[5]["ms"], "accepted": tests[5]["acc"]})


@check("C03", ["as for C01"])
def c03(c):
    histories(c, ("data", "sel", "names", "values"), plan(c))


@check("C04", ["as for C01"])
def c04(c):
    histories(c, ("names", "values"), plan(c))
