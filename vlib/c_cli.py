"""C10, C13, C30: the command and its conversions."""
import json, random
from .core import check


@check("C30", ["label sets, timestamps and values are drawn from tables of the driver; different label sets may share an identity"])
def c30(c):
    tab = c.drive("cli", "tables", [{}])[0]["out"]
    depth = 5
    r = c.model_ok(c.tlc("Convert", dict(NLabels=len(tab["titles"]), NTimes=len(tab["times"]), NValues=len(tab["values"]), Depth=depth),
                         simulate=c.pick(3000, 30000), depth=depth + 2, invariants=["Faithful"], action_constraint="Emit"))
    ident = {}
    tests = [[h["r"] for h in x] for x in r.lines]
    exps = [[{"ok": h["exp"]["ok"], "series": [{"title": tab["titles"][s["l"] - 1], "l": s["l"],
                                                "pts": [[tab["times"][a - 1], tab["values"][b - 1]] for a, b in s["p"]]}
                                               for s in h["exp"]["series"]]} for h in x] for x in r.lines]
    # every point, or every series, standing for many
    rng = random.Random(c.seed)
    for t in rng.sample(range(len(tests)), c.pick(60, 600)):
        points, times = rng.choice([(1000, 1), (7000, 1), (1, 50), (1, 400), (30, 30)])
        for h in tests[t]:
            h["series"] = [dict(s, p=s["p"] * points) for s in h["series"]] * times
        for h in exps[t]:
            h["series"] = [dict(s, pts=s["pts"] * points) for s in h["series"]] * times
        c.count_ops(["points", "series"])
    for x in r.lines:
        for h in x:
            c.count_ops([h["r"]["kind"] if not h["r"]["err"] else "failed"])

    def eq(e, o):
        if not isinstance(o, list) or len(o) != len(e):
            return False
        for a, b in zip(e, o):
            if a["ok"] != b["ok"] or len(a["series"]) != len(b["series"]):
                return False
            for s, t in zip(a["series"], b["series"]):
                if s["title"] != t["title"] or s["pts"] != t["pts"] or t["id"] == 0 or ident.setdefault(s["l"], t["id"]) != t["id"]:
                    return False
        return True
    c.compare("cli", "convert", tests, exps, lambda t, e, o: "converting %s: expected %s, got %s (identities before: %s)" % (
        json.dumps(t)[:600], json.dumps(e)[:900], json.dumps(o)[:900], ident), eq=eq)
    n, k = c.pick(400000, 4000000), 40
    sw = [{"from": i * n // k, "to": (i + 1) * n // k} for i in range(k)]
    c.compare("cli", "sweep", sw, ["ok"] * k, lambda t, e, o: "identities of label sets %s: %s" % (t, o))
    c.notes["identities swept"] = n
    c.require_ops(["matrix", "vector", "scalar", "none", "string", "failed"])
    c.sample({"results": tests[0], "expected": exps[0]})


def cli(c, fails, walks, ops):
    r = c.model_ok(c.tlc("Cli", dict(Walks=walks, Fails=fails), invariants=["Apart", "Everything"], action_constraint="Emit"))
    runs = [{k: x[k] for k in ("list", "query", "f", "config", "color", "rep", "targets")} for x in r.lines]
    size = 30
    tests = [{"runs": runs[i:i + size]} for i in range(0, len(runs), size)]
    exps = [r.lines[i:i + size] for i in range(0, len(runs), size)]

    def judge(x, o):
        """None if the run may end like this"""
        if "bad" in o:
            return o["bad"]
        failed = any(f[0] and t["first"]["status"] == 0 or any(f[min(k, 1)] for k in range(n))
                     for f, t, n in zip(x["fails"], x["targets"], o["counts"]))
        if x["bad"] or failed:
            return None if o["err"] else "succeeded"
        if o["err"]:
            return "failed: " + o["msg"]
        n = max(o["counts"])
        if n == 0 or min(o["counts"]) == 0:
            return "did not ask every target: %s" % o["counts"]
        e = x["exp"][min(n, 2) - 1]

        def name(s):
            for i, u in enumerate(o["urls"]):
                s = s.replace("@%d" % i, u)
            return s
        if x["list"]:
            want = sorted("--%s { %s }" % (k["m"], ", ".join(sorted(k["ls"]))) for k in e["listing"]) + [""]
            return None if o["lines"] == want else "expected the lines %s" % want
        key = lambda ls, v: (sorted((k, name(v)) for k, v in (ls or {}).items()), v)
        want = sorted(key(s["ls"], str(s["v"])) for s in e["samples"])
        return None if want == sorted(key(s["ls"], s["v"]) for s in o["samples"]) else "expected the samples %s" % want

    def eq(e, o):
        return isinstance(o, list) and len(o) == len(e) and all(judge(x, y) is None for x, y in zip(e, o))

    def describe(t, e, o):
        if isinstance(o, dict) and "out" in o:
            o = o["out"]
        if not isinstance(o, list) or len(o) != len(e):
            return "runs of the command: %s" % json.dumps(o)[:1500]
        i = next(i for i in range(len(e)) if judge(e[i], o[i]) is not None)
        return "run of the command %s: %s, got %s" % (json.dumps(t["runs"][i])[:1200], judge(e[i], o[i]), json.dumps(o[i])[:900])
    c.compare("cli", "batch", tests, exps, describe, eq=eq, per_test=30, shards=8)
    for x in r.lines:
        c.count_ops(["list" if x["list"] else "one-shot", "kubeconfig" if x["config"] else "targets-%d" % len(x["targets"]),
                     "bad query or format" if x["bad"] else "good query and format", "format-" + x["f"],
                     "targets fail" if any(any(f) for f in x["fails"]) else "targets answer"] +
                    ["status-%d" % t["first"]["status"] for t in x["targets"]])
    c.notes["runs of the command"] = len(runs)
    c.require_ops(ops + ["list", "one-shot", "kubeconfig", "targets-1", "targets-2", "targets-3", "targets fail", "targets answer"])
    c.sample({"run": runs[0], "expected": r.lines[0]["exp"]})


@check("C10", ["targets are local HTTP servers; a target listed twice is left out", "what fails only on a later request counts if that request is made"])
def c10(c):
    cli(c, 6, c.pick(1500, 12000), ["status-0", "status-1", "status-2", "status-204", "status-404", "status-500", "status-200"])


@check("C13", ["targets are local HTTP servers; nothing being printed or fetched afterwards is observed for 1.3 seconds"])
def c13(c):
    cli(c, 2, c.pick(1500, 12000), ["bad query or format", "format-json", "format-yaml", "format-prometheus", "format-xml"])


@check("C33", ["the binary runs with a kubeconfig, home directory and environment of its own; how flags are spelled is what the pflag library accepts; "
               "interactive runs are C32's; the default cluster without any kubeconfig is left out"])
def c33(c):
    n = c.pick(2500, 20000)
    flags = 6
    r = c.model_ok(c.tlc("CmdLine", dict(MaxFlags=flags), simulate=n, depth=flags + 3, invariants=["Commute", "OnlyAsked"],
                         action_constraint="Emit"))
    pq = c.build_command()
    tests, exps, seen = [], [], set()
    for x in r.lines:
        for words, out in ((x["words"], x["out"]), (x["words"][:-1], x["cut"])):
            k = json.dumps([words, x["conf"]])
            if out["kind"] == "" or k in seen:
                continue
            seen.add(k)
            tests.append({"words": words, "conf": x["conf"], "format": out.get("format", "")})
            exps.append(out)
            c.count_ops(["target " + d for d in ("@a", "@b", "@c", "@d", "@e") if any(w.endswith(d) for w in words)])
            c.count_ops([out["kind"], "config-" + x["conf"]["where"], "auth-" + x["conf"]["auth"]] +
                        (x["hows"] if out is x["out"] else ["value left out"]))
            if out["kind"] in ("result", "list"):
                c.count_ops(["targets-%d" % len(out["targets"]), "tls-" + x["conf"]["tls"]] + (["kubeconfig's cluster"] if set(out["targets"]) & {7, 8} else []))

    def judge(e, o):
        if not isinstance(o, dict):
            return str(o)
        if o.get("auths"):
            return o["auths"]
        if e["kind"] == "error":
            if not o["failed"]:
                return "succeeded, but cannot"
            if o["stdout"]:
                return "failed, but printed on standard output"
            if not o["stderr"].strip():
                return "failed without saying why"
            return "asked a target" if o["asked"] and not e["asked"] else None
        if o["failed"]:
            return "failed"
        if e["kind"] == "help":
            if o["asked"]:
                return "asked a target"
            words = o["stdout"] + o["stderr"]
            return None if all("--" + w in words for w in ("list", "query", "output", "targets", "continuous")) else "help does not name the flags"
        if o["stderr"]:
            return "succeeded, but complains"
        if o["asked"] != sorted(map(str, e["targets"])):
            return "asked %s, not %s" % (o["asked"], e["targets"])
        if e["kind"] == "list":
            want = ["--%s { t }" % m for m in sorted(e["names"])] + [""]
            return None if o["stdout"].split("\n") == want else "expected the lines %s" % want
        key = lambda s: (s["n"], s["t"], s["v"])
        if not isinstance(o["samples"], list):
            return o["samples"]
        want = sorted(map(key, e["samples"]))
        return None if sorted(map(key, o["samples"])) == want else "expected the samples %s" % want

    def describe(t, e, o):
        if isinstance(o, dict) and "out" in o:
            o = o["out"]
        return "command line %s with kubeconfig %s: %s; got %s" % (json.dumps(t["words"]), json.dumps(t["conf"]), judge(e, o), json.dumps(o)[:1500])
    c.compare("cli", "cmdline", tests, exps, describe, eq=lambda e, o: judge(e, o) is None, env={"VERIF_PQ": pq}, per_test=30, shards=8)
    c.require_ops(["help", "error", "list", "result", "short", "glued", "eq", "long", "longeq", "after", "on", "longon", "booleq", "word",
                   "value left out", "config-env", "config-home", "config-two", "config-none", "config-broken", "config-dangling",
                   "target @a", "target @b", "target @c", "target @d", "target @e", "auth-token", "auth-basic", "auth-none", "tls-ca", "tls-insecure", "kubeconfig's cluster", "targets-1", "targets-2", "targets-3"])
    c.sample({"command line": tests[0], "expected": exps[0]})
