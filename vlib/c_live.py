"""C32: interactive sessions of the command."""
import json
from .core import check


def scenarios(c, n, depth):
    r = c.model_ok(c.tlc("Interactive", constants=dict(MaxOps=depth), simulate=n, depth=3 * depth,
                         invariants=["InAxes", "Shown"], properties=["Grows", "FailuresAreSilent"], action_constraint="Emit"))
    tests, exps = [], []
    # (those that only quit earlier than others, or in another way, are left out)
    known = set()
    lines = []
    for x in sorted(r.lines, key=lambda x: (-len(x["ops"]), json.dumps(x["ops"]))):
        ops = [json.dumps(o) for o in x["ops"]]
        if "".join(ops[:-1]) in known:
            continue
        known.update("".join(ops[:i]) for i in range(3, len(ops)))
        lines.append(x)
    for x in lines:
        ops, exp = [], []
        long = x["window"] > 1
        num = lambda v: ("%5.5g" % (v * 10.0 ** x["scale"])).strip()
        # thresholds are scaled like the values
        fix = (lambda s: s.replace("> 45", "> 45e%d" % x["scale"])) if x["scale"] else (lambda s: s)
        for o in x["ops"]:
            o["rows"] = [fix(s) for s in o["rows"]]
            if "line" in o:
                o["line"] = fix(o["line"])
            c.count_ops([o["op"]])
            live = o["done"] == ""
            rows = o["rows"][-3:] if live and o["sure"] else []
            # room for the axes and their labels
            graph = live and o["plotted"] and o["titles"] and o["lines"] - 9 >= (8 if long else 18)
            want = {"rows": rows, "key": sorted(o["titles"] + o["again"]) if live else [],
                    "lo": num(o["lo"]) if graph else "", "hi": num(o["hi"]) if graph else "",
                    "dom": "in the window" if graph else "",
                    "lines": "as in the key" if graph else "", "done": o["done"], "cur": 4 if rows else -1,
                    "popup": o.get("offer", ""), "alt": live, "bad": ""}
            if graph:
                c.count_ops(["graph"])
            # the axes cover more than what is plotted now, perhaps nothing was plotted in between
            if o["op"] in ("enter", "recall", "complete", "start"):
                gone = False
            gone = gone or live and not o["titles"]
            if graph and o["kept"]:
                c.count_ops(["axes kept"] + (["axes kept while empty"] if gone else []))
            if o["op"] == "complete":
                c.count_ops(["offer" if o["offer"] else "no offer"])
            if o.get("bad"):
                c.count_ops(["failing start" if o["op"] == "start" else "failing"])
            if rows and any(s.endswith("*") for s in rows):
                c.count_ops(["wrong query"])
            strict = o["lines"] - 9 - (6 if long else 16) >= 15
            c.count_ops(["all lines"] if graph and strict else [])
            ops.append(dict({k: o[k] for k in ("op", "line", "offer", "doc", "bad", "cols", "lines", "width", "stale", "always", "back") if k in o}, want=want, strict=strict))
            exp.append(want)
        tests.append({"window": x["window"], "scale": x["scale"], "ops": ops})
        exps.append(exp)
    return tests, exps


@check("C32", ["the terminal is an xterm of at least 90 columns and 34 rows", "a line is typed when the prompt asks for one",
               "queries change while no result is being computed"])
def c32(c):
    def desc(t, e, o):
        out = o.get("out")
        if not isinstance(out, list) or not out:
            return "session: %s after %s" % (json.dumps(o)[-1500:], json.dumps(t)[:900])
        i = next((i for i in range(len(e)) if i >= len(out) or out[i] != e[i]), len(e) - 1)
        i = min(i, len(out) - 1)
        did = [{k: v for k, v in x.items() if k in ("op", "line", "doc", "bad", "back", "cols", "lines")} for x in t["ops"][:i + 1]]
        diff = {k: (e[i][k], out[i].get(k)) for k in e[i] if e[i][k] != out[i].get(k)}
        return "session (window of %ss, values e%s): expected and seen %s, after %s" % (t["window"], t["scale"], json.dumps(diff, ensure_ascii=False), json.dumps(did, ensure_ascii=False)[-2500:])
    tests, exps = scenarios(c, c.pick(240, 900), c.pick(13, 20))
    outs = c.drive("live", "live", tests, shards=100, per_test=120, timeout=800)
    # what a busy machine may have delayed is tried again with less going on
    again = [i for i, o in enumerate(outs) if o.get("out") != exps[i]]
    c.traces += len(tests) - len(again)
    c.evals += len(tests) - len(again)
    c.notes["tried again"] = len(again)
    again = again[:24]
    if again:
        c.compare("live", "live", [tests[i] for i in again], [exps[i] for i in again], desc, shards=6, per_test=120, timeout=800)
    c.require_ops(["start", "enter", "complete", "serve", "resize", "quit", "recall", "abort", "axes kept", "axes kept while empty", "graph", "all lines", "offer", "no offer", "failing", "failing start", "wrong query"])
    c.sample({k: v for k, v in tests[0]["ops"][0].items()})
