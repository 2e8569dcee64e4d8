"""C07-C09: scraping, reporting and setting the query."""
import concurrent.futures, json
from .core import check, CheckError


def canon_event(e):
    e = dict(e)
    if "names" in e:
        e["names"] = sorted(e["names"])
    if isinstance(e.get("r"), list):
        e["r"] = sorted([s, list(ids)] for s, ids in e["r"])
    return e


def canon(evs):
    if not isinstance(evs, list):
        return evs
    return sorted((canon_event(e) for e in evs), key=lambda e: json.dumps(e, sort_keys=True))


def schedules(c, label, scrapers, depth, sets, fails, batches, rng=False, sim=0):
    r = c.model_ok(c.tlc("Periodic", {"Scrapers": "{%s}" % ", ".join(map(str, range(1, scrapers + 1))), "MaxDepth": depth,
                                      "Sim": bool(sim), "Last": rng, "SetChoices": "{%s}" % ", ".join(map(str, sets)),
                                      "FailChoices": "{%s}" % ", ".join('"%s"' % f for f in fails), "Batches": batches},
                         invariants=["OneAtATime", "NoStarvation", "QueryValid"],
                         properties=[] if sim else ["StoresOnlyFetched"],
                         action_constraint="Emit", simulate=sim or None, depth=depth + 1, label="Periodic-" + label))
    hs = {}
    for x in r.lines:
        hs[json.dumps([{k: v for k, v in e.items() if k != "ev"} for e in x["h"]])] = x["h"]
    keys = sorted(hs)
    # a behaviour that is a prefix of another one is covered by it
    keep = [k for i, k in enumerate(keys) if not any(n.startswith(k[:-1] + ", ") for n in keys[i + 1:i + 2])]
    tests, exps = [], []
    for k in keep:
        h = hs[k]
        tests.append({"h": [dict({a: b for a, b in e.items() if a != "ev"}, n=len(e["ev"])) for e in h],
                      "n": scrapers, "range": rng})
        exps.append([canon(e["ev"]) for e in h])
        c.count_ops(e["op"] for e in h)
        c.count_ops("ret-" + v["r"] for e in h for v in e["ev"] if v["e"] == "ret")
    return tests, exps


def replay(c, *a, **k):
    tests, exps = schedules(c, *a, **k)
    c.compare("periodic", "schedule", tests, exps,
              lambda t, e, o: "schedule %s: expected %s, got %s" % (json.dumps(t), json.dumps(e), json.dumps(o)[:1500]),
              eq=lambda e, o: isinstance(o, list) and [canon(x) for x in o] == e, per_test=60)
    if tests:
        c.sample({"schedule": tests[len(tests) // 2], "expected": exps[len(tests) // 2]})


ASSUME = ["the data source and the callback are the harness'; one process; at most one scraper waits for its turn in the scheduled runs"]


@check("C07", ASSUME)
def c07(c):
    allf = ["fetch", "partial", "callback"]
    replay(c, "one", 1, c.pick(6, 7), [2, 3], allf, 1)
    replay(c, "two", 2, c.pick(5, 6), [1], allf, 1)
    allf = allf + ["cancel"]
    replay(c, "ended", 1, c.pick(6, 7), [2], allf, 1)
    replay(c, "walk", 2, 24, [1, 2, 3, 9], allf, 4, sim=c.pick(150, 2500))
    replay(c, "range", 2, 20, [1, 2, 3], allf, 4, rng=True, sim=c.pick(60, 1000))
    c.require_ops(["ret-ok", "ret-fetch", "ret-query", "ret-callback", "start", "fetched", "reported", "cancel"])


@check("C08", ASSUME + ["data races are what Go's race detector reports on free runs"])
def c08(c):
    replay(c, "two", 2, c.pick(6, 7), [1, 2], [], 2)
    replay(c, "three", 3, 30, [1, 2, 3, 9], ["fetch", "callback"], 4, sim=c.pick(150, 2500))
    replay(c, "range", 2, 20, [1, 2], ["fetch"], 4, rng=True, sim=c.pick(60, 800))
    windows(c)
    free(c, c.pick(100, 1500))
    c.require_ops(["ret-ok", "start", "fetched", "reported", "set"])


@check("C09", ASSUME)
def c09(c):
    replay(c, "one", 1, c.pick(5, 6), [1, 2, 8, 9], [], 1)
    replay(c, "two", 2, c.pick(5, 6), [1, 2, 9], ["fetch"], 1)
    replay(c, "walk", 2, 25, [1, 2, 3, 8, 9], ["fetch", "callback"], 4, sim=c.pick(150, 2500))
    free(c, c.pick(60, 1000))
    c.require_ops(["set", "reported"])


def windows(c):
    """When queries are evaluated: Window.tla against PeriodicData."""
    tests, exps = [], []

    def take(label, unit, **k):
        sim = k.get("Sim", 0)
        k["Sim"] = bool(sim)
        k["Lookback"] = 300000 // unit
        depth = k["MaxScrapes"]
        r = c.model_ok(c.tlc("Window", k, invariants=["Honest", "EndsNow", "Distinct"], action_constraint="Emit",
                             simulate=sim or None, depth=depth + 1, label="Window-" + label))
        for x in {json.dumps(x, sort_keys=True): x for x in r.lines}.values():
            tests.append({"w": x["w"], "instant": x["instant"], "unit": unit,
                          "h": [sorted(b["got"], key=lambda y: y["id"]) for b in x["h"]]})
            exps.append([sorted([y["s"], sorted(list(p) for p in y["pts"])] for y in b["want"]) for b in x["h"]])
            c.count_ops(["instant" if x["instant"] else "window"])
    take("all", 1000, Windows="{0, 4, 6, 9}", Past=10, Future=c.pick(1, 2), MaxScrapes=c.pick(1, 2))
    n = c.pick(150, 2500)
    take("short", 250, Windows="{0, 3, 4, 17, 40}", Past=45, Future=6, MaxScrapes=4, Sim=n)
    take("minute", 15000, Windows="{4, 60, 61}", Past=90, Future=6, MaxScrapes=4, Sim=n)
    take("hours", 60000, Windows="{0, 7, 60, 240}", Past=250, Future=6, MaxScrapes=5, Sim=n)
    # many thousands of evaluations in one window
    take("far", 250, Windows="{60000}", Past=60100, Future=6, MaxScrapes=4, Sim=c.pick(12, 60))
    c.compare("periodic", "window", tests, exps,
              lambda t, e, o: "scrapes %s: expected %s, got %s" % (json.dumps(t), json.dumps(e), json.dumps(o)[:1500]),
              eq=lambda e, o: isinstance(o, list) and [canon_pts(x) for x in o] == e)
    c.require_ops(["instant", "window"])
    c.sample({"window": tests[0], "expected": exps[-1]})


def canon_pts(x):
    return sorted([s, sorted(list(p) for p in pts)] for s, pts in x) if isinstance(x, list) else x


def free(c, n):
    tests = [{"scrapers": 3, "scrapes": 4, "setters": 2, "sets": 5, "seed": c.seed * 7919 + i, "record": True} for i in range(n)]
    outs = c.drive("periodic", "free", tests, shards=4)
    traces = []
    for t, o in zip(tests, outs):
        if o.get("skipped"):
            continue
        if not isinstance(o.get("out"), list):
            c.violation("free run failed: %s" % json.dumps(o)[:2000],
                        dict(driver="periodic", mode="free", test=t, observed=o))
            continue
        traces.append(o["out"])
    groups = [traces[k::8] for k in range(8)]

    def one(g):
        if not g:
            return None
        lines = [e for t in g for e in t]
        r = c.model_ok(c.tlc("PeriodicTrace", constraint="Track", postcondition="TraceDone",
                             files={"recs.ndjson": "".join(json.dumps(x) + "\n" for x in lines)}, heap="3g"))
        rep = [x for x in r.lines if "reached" in x]
        if not rep or rep[-1]["len"] != len(lines):
            raise CheckError("PeriodicTrace gave no report\n" + r.output[-2000:])
        return lines, rep[-1]["reached"]
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        for res in ex.map(one, groups):
            if res is None:
                continue
            lines, reached = res
            if reached < len(lines):
                k = reached
                while lines[k]["e"] != "reset":
                    k -= 1
                c.violation("a recorded run is not a behaviour of the specification: stuck at %s after %s" % (
                    json.dumps(lines[reached]), json.dumps(lines[k:reached])[-1500:]),
                    dict(module="PeriodicTrace", trace=lines[k:reached + 1]))
            else:
                c.traces += sum(1 for x in lines if x["e"] == "reset")
    tests = [dict(t, record=False, scrapes=12, sets=20) for t in tests[:c.pick(24, 300)]]
    outs = c.drive("periodic", "free", tests, race=True, env={"GORACE": "halt_on_error=1 exitcode=66"}, shards=4)
    for t, o in zip(tests, outs):
        if o.get("skipped") or o.get("out", 0) is None:
            continue
        c.violation("free run under the race detector: %s" % json.dumps(o)[:2500],
                    dict(driver="periodic", mode="free", race=True, test=t, observed=o))
        break
    c.traces += len(tests)
