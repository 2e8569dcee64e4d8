"""C05, C06: the completion index."""
import json, random
from .core import check, CheckError


def canon(o):
    if not isinstance(o, dict) or "names" not in o:
        return o
    return {"names": sorted(o["names"]),
            "dims": sorted([m, sorted(d)] for m, d in o["dims"]),
            "values": sorted([m, d, sorted(v)] for m, d, v in o["values"])}


def behaviours(c, depth, sim=0):
    r = c.model_ok(c.tlc("Index", dict(MaxDepth=depth, Sim=bool(sim)), invariants=["Sound", "Complete"],
                         properties=[] if sim else ["Grows"], action_constraint="Emit",
                         simulate=sim or None, depth=depth + 1))
    meta = [x["meta"] for x in r.lines if "meta" in x][0]
    tests, exps, seen = [], [], set()
    for x in r.lines:
        if "h" not in x:
            continue
        h = [{"op": e["op"], "i": e["i"], "o": e["obs"] != []} for e in x["h"]]
        if not sim:
            h[-1]["o"] = True
        k = json.dumps(h)
        if k in seen:
            continue
        seen.add(k)
        tests.append({"h": h})
        exps.append([canon(e["obs"]) for e in x["h"]] if sim else [canon(x["obs"])])
        c.count_ops(e["op"] for e in h)
    return meta, tests, exps


# how the specification's words may be spelled
NAMES = ["up", "a:b:c", ":", "_", "M", "m_bucket", "m_total", "NaN", "inf", "n" * 300, "sum", "m_", "http_requests_total", "__name"]
DIMS = ["quantile", "instance", "job", "__address__", "_", "A", "__meta_x", "d" * 300, "by", "name", "__name", "b_", "L1"]
VALUES = ["", "+Inf", "0.99", "NaN", " ", "v" * 300, "v" * 5000, "\u00fc\u4e16", "\"q\"", "a,b", "{}", "\n", "__name__", "0", "x ", "\u0000", "X", "true", "\\"]


def spell(rng):
    def some(words, pool):
        k = rng.randint(1, len(words))
        return dict(zip(rng.sample(words, k), rng.sample(pool, k)))
    # the labels that mean something elsewhere, with the values they have there
    pair = rng.choice([("le", "+Inf"), ("le", "0.5"), ("quantile", "0.99"), ("quantile", "1.0"), ("job", "prometheus"),
                       ("instance", "localhost:9090"), ("__address__", "x:1"), ("__scheme__", "https")]) if rng.random() < 0.3 else None
    if pair:
        return {"n": some(["m", "n", "o", "a"], NAMES), "d": dict({"a": pair[0]}, **({"le": "a"} if pair[0] == "le" else {})),
                "v": {rng.choice(["x", "y"]): pair[1]}}
    return {"n": some(["m", "n", "o", "a"], NAMES), "d": some(["a", "b", "le", "m"], DIMS),
            "v": some(["x", "y", "z", "1", "m", "n", "a"], VALUES)}


def replay(c, depth, sim=0):
    meta, tests, exps = behaviours(c, depth, sim)
    rng = random.Random(c.seed * 7 + depth)
    if sim:
        tests = [t if i % 5 == 0 else dict(t, **spell(rng)) for i, t in enumerate(tests)]
    c.compare("index", "history", tests, exps,
              lambda t, e, o: "history %s over %s: got %s" % (json.dumps(t)[:1500], json.dumps(meta), json.dumps(o)[:900]),
              args=[json.dumps(meta)],
              eq=lambda e, o: isinstance(o, list) and [canon(x) for x in o] == e)
    c.count_ops(["spelled" for t in tests if "v" in t] + ["spelled " + v[:4] for t in tests for v in t.get("v", {}).values()])
    c.sample({"behaviour": tests[-1]["h"], "expected": exps[-1][-1]})


def scaled(c, depth, sim):
    """The same behaviours with every name, label or value standing for a block of concrete ones."""
    meta, tests, exps = behaviours(c, depth, sim)
    rng = random.Random(c.seed)
    sizes = [(1, 1, 3000), (2500, 1, 1), (1, 400, 3), (60, 5, 40), (1, 1, 700)] + c.pick([], [(1, 1, 30000), (20000, 1, 1), (2, 3000, 1)])
    out, want = [], []
    for i, t in enumerate(tests):
        h = [dict(e, o=e["o"] and (k % 6 == 5 or k == len(t["h"]) - 1)) for k, e in enumerate(t["h"])]
        n, d, v = sizes[i % len(sizes)]
        out.append({"h": h, "names": n, "dims": d, "values": v, "pad": [0, 0, 120, 600][i % 4]})
        obs = iter(exps[i])
        want.append([x for e, f, x in [(e, f, next(obs)) for e, f in zip(t["h"], h) if e["o"]] if f["o"]])
    c.compare("index", "blocks", out, want,
              lambda t, e, o: "history %s over %s: got %s" % (json.dumps(t)[:1500], json.dumps(meta), json.dumps(o)[:900]),
              args=[json.dumps(meta)],
              eq=lambda e, o: isinstance(o, list) and [canon(x) for x in o] == e)


@check("C05", ["label sets with equal 64-bit hashes are left out: the index knowingly treats them as one",
               "names and values are drawn from the label sets of Index.tla"])
def c05(c):
    replay(c, c.pick(3, 4))
    replay(c, 25, c.pick(150, 2000))
    scaled(c, 18, c.pick(25, 200))
    c.require_ops(["ingest", "scribble"])


def plans(rng, seed):
    """Writers' plans: series of shared and of own metrics, with many labels so that updates take a while."""
    def series(name, tag, n):
        d = {"__name__": name}
        for i in range(n):
            d["l%02d_%s" % (i, tag)] = "v%s" % tag
        d["common"] = tag
        return d
    out = []
    for w in range(2):
        out.append([series("m", "w%dk%d" % (w, k), rng.choice([1, 3, 12, 40])) for k in range(3)])
    out.append([series("own", "w2k%d" % k, rng.choice([1, 25, 70])) for k in range(3)])
    return out


@check("C06", ["the schedules are those the Go scheduler produces while readers and writers run freely on all cores",
               "data races are what Go's race detector reports on them"])
def c06(c):
    # the locking discipline, exhaustively
    c.model_ok(c.tlc("IndexConc", {"Writers": '{"w1", "w2"}', "Readers": c.pick('{"r1"}', '{"r1", "r2"}'), "Labels": '{"a", "b"}'},
                     invariants=["Snapshot", "Exclusive"], workers=8, deadlock=True))
    # collections handed out are the caller's own: scribbling behaviours, replayed
    replay(c, 3)
    replay(c, 25, c.pick(60, 1000))
    scaled(c, 18, c.pick(15, 100))
    c.require_ops(["ingest", "scribble"])
    rng = random.Random(c.seed)
    kinds = [["names", "", ""], ["dims", "m", ""], ["values", "m", "common"], ["dims", "own", ""], ["values", "own", "common"]]
    tests = []
    for i in range(c.pick(400, 6000)):
        tests.append({"plan": plans(rng, i), "readers": 3, "reads": 60, "kinds": kinds, "record": True,
                      "seed": c.seed * 100003 + i})
    outs = c.drive("index", "concurrent", tests, shards=2)
    traces = []
    for t, o in zip(tests, outs):
        if o.get("skipped"):
            continue
        if "out" not in o:
            c.violation("concurrent reads and updates crashed: %s" % json.dumps(o)[:1500],
                        dict(driver="index", mode="concurrent", test=t, observed=o))
            continue
        for evs in o["out"]:
            if evs:
                traces.append([{"plan": t["plan"]}] + evs)
    validate(c, traces)
    c.count_ops(["concurrent-reads-%d" % (sum(len(t) - 1 for t in traces) > 0)])
    overlapping = sum(1 for t in traces for e in t[1:] if e["lo"] != e["hi"])
    c.notes["reads_overlapping_an_update"] = overlapping
    if not c.violations and overlapping < 50:
        raise CheckError("vacuous run: only %d reads overlapped an update" % overlapping)
    # the same without any recording, under the race detector
    tests = [dict(t, record=False, reads=150) for t in tests[:c.pick(60, 600)]]
    outs = c.drive("index", "concurrent", tests, race=True, env={"GORACE": "halt_on_error=1 exitcode=66"}, shards=2)
    for t, o in zip(tests, outs):
        if o.get("skipped"):
            continue
        S = [s for w in t["plan"] for s in w]
        want = [["m", "own"]] + [sorted({k for s in S if s["__name__"] == "m" for k in s} - {"__name__"}),
                                 sorted({s["common"] for s in S if s["__name__"] == "m"}),
                                 sorted({k for s in S if s["__name__"] == "own" for k in s} - {"__name__"}),
                                 sorted({s["common"] for s in S if s["__name__"] == "own"})]
        if o.get("out") != want:
            c.violation("concurrent reads and updates (race detector on): %s" % json.dumps(o)[:2500],
                        dict(driver="index", mode="concurrent", race=True, test=t, observed=o, expected=want))
            break
    c.traces += len(tests)


def validate(c, traces):
    import concurrent.futures
    n = 8
    groups = [traces[k::n] for k in range(n)]

    def one(g):
        if not g:
            return None
        lines = [e for t in g for e in t]
        r = c.tlc("IndexTrace", constraint="Track", postcondition="Report", label="IndexTrace",
                  files={"recs.ndjson": "".join(json.dumps(x) + "\n" for x in lines)}, heap="3g")
        c.model_ok(r)
        rep = [x for x in r.lines if "reached" in x]
        if not rep or rep[-1]["len"] != len(lines):
            raise CheckError("IndexTrace gave no report\n" + r.output[-2000:])
        return lines, rep[-1]["reached"]
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for res in ex.map(one, groups):
            if res is None:
                continue
            lines, reached = res
            if reached < len(lines):
                ev = lines[reached]
                k = reached
                while "plan" not in lines[k]:
                    k -= 1
                c.violation("a read of the index is not explained by any order of the updates: %s" % json.dumps(ev)[:1500],
                            dict(module="IndexTrace", plan=lines[k], prefix=lines[max(k, reached - 5):reached], event=ev))
            else:
                c.traces += len([x for x in lines if "plan" in x])
    if traces:
        c.sample({"trace": traces[0][:3]})
