"""C20-C24, C26: the terminal widgets."""
import json, random
from .core import check

CHARS = {"a": "a", "b": "é", "c": "┃", "W": "日", "V": "😀", "^": "\u0301", "~": "\u0323",
         "T": "\t", "E": "\x1b", "R": "\r", "N": "\n"}
TR = str.maketrans(CHARS)


def cell_ok(e, o):
    """Whether a drawn cell is the specification's."""
    if e == "?" or o == "?":
        return True
    if e == "_":
        return o in ("", " 0")
    return e.translate(TR) == o


def grid_bad(e, o):
    if len(e) != len(o):
        return "%d rows instead of %d" % (len(o), len(e))
    for i, (x, y) in enumerate(zip(e, o)):
        if len(x) != len(y):
            return "row %d has %d cells instead of %d" % (i, len(y), len(x))
        for j, (a, b) in enumerate(zip(x, y)):
            if not cell_ok(a, b):
                return "cell (column %d, row %d) is %r instead of %r" % (j, i, b, a.translate(TR))
    return None


@check("C20", ["the area is driven through the writer the prompt is given, and observed by drawing the widget"])
def c20(c):
    n = c.pick(3000, 15000)
    ops = ["resize", "write", "newline", "style", "forward", "backward", "up", "down", "goto", "erase", "eraseup", "erasedown",
           "erasestart", "eraseend", "eraseline", "scrolldown", "scrollup"]

    def run(tag, n, mn, mx, my, depth, exact):
        r = c.model_ok(c.tlc("TextArea", next="Next" if exact else "AnyNext", constants=dict(MaxCols=mx, MaxRows=my, MinSize=mn, MaxOps=depth), simulate=n, depth=depth + 1,
                             invariants=["InArea", "Shape", "Whole"] if exact else [], properties=["ScrollsByOne"] if exact else [],
                             action_constraint="Emit", label="TextArea-" + tag))
        tests, exps = [], []
        for x in r.lines:
            t = [{"op": o["op"], "x": o["x"], "y": o["y"], "t": "".join(o["t"]).translate(TR)} for o in x["ops"]]
            c.count_ops([o["op"] for o in x["ops"]])
            c.count_ops(["lost" for o in x["ops"] if o["lost"]])
            tests.append({"ops": t})
            exps.append(x["ops"])
        return tests, exps

    def bad(e, o):
        if not isinstance(o, list) or len(o) != len(e):
            return 0, "no answer"
        for i, (a, b) in enumerate(zip(e, o)):
            if b["bad"]:
                return i, b["bad"]
            rows, cols = len(a["buf"]), len(a["buf"][0])
            w = grid_bad(a["buf"], b["grid"])
            if w:
                return i, w
            if a["lost"]:
                if not (0 <= b["row"] < rows and 0 <= b["col"] <= cols):
                    return i, "the cursor is at column %d, row %d of %d x %d" % (b["col"], b["row"], cols, rows)
            elif (b["row"], b["col"]) != (a["row"], a["col"]):
                return i, "the cursor is at column %d, row %d instead of column %d, row %d" % (b["col"], b["row"], a["col"], a["row"])
        return None

    def desc(t, e, o):
        b = bad(e, o["out"]) if "out" in o else None
        if not b:
            return "text area: %s after %s" % (json.dumps(o)[-600:], json.dumps(t["ops"])[-800:])
        i, w = b
        return "text area after %s: %s" % (json.dumps([{k: v for k, v in x.items() if v not in ("", 0)} for x in t["ops"][max(0, i - 4):i + 1]], ensure_ascii=False), w)
    tests, exps = run("exact", n, 1, 6, 4, 26, True)
    c.compare("term", "area", tests, exps, desc, eq=lambda e, o: bad(e, o) is None)
    c.require_ops(ops + ["lost"])
    c.sample(tests[0]["ops"][:5])
    tests, exps = run("wide", n // 5, 1, 20, 7, 40, True)
    c.compare("term", "area", tests, exps, desc, eq=lambda e, o: bad(e, o) is None)
    # while another goroutine draws: no data race, and the same end
    k = c.pick(60, 600)
    c.compare("term", "areaconc", [{"ops": [y for y in t["ops"]]} for t in tests[:k]], [e[-1:] for e in exps[:k]], desc,
              eq=lambda e, o: bad(e, o) is None, race=True)
    # tiny and empty areas, everything written: contained, and no crash
    tests, _ = run("any", n, 0, 3, 3, 26, False)

    def chaos(e, o):
        cols = rows = 0
        for x, y in zip(e, o):
            if x["op"] == "resize":
                cols, rows = x["x"], x["y"]
            if y["bad"] or cols and rows and not (0 <= y["col"] <= cols and 0 <= y["row"] < rows):
                return False
        return len(o) == len(e)
    c.compare("term", "area", tests, [t["ops"] for t in tests],
              lambda t, e, o: "text area: %s after %s" % (json.dumps(o, ensure_ascii=False)[-800:], json.dumps(t["ops"], ensure_ascii=False)[:1500]), eq=chaos)


@check("C21", ["a wide character in an area of a single column is left out"])
def c21(c):
    rng = random.Random(c.seed)

    def bad(e, o):
        if not isinstance(o, list) or len(o) != len(e):
            return 0, "no answer"
        for i, (a, b) in enumerate(zip(e, o)):
            w = b["bad"] or grid_bad(a, b["grid"])
            if w:
                return i, w
        return None

    def desc(t, e, o):
        b = bad(e, o["out"]) if "out" in o else None
        if not b:
            return "text box: %s after %s" % (json.dumps(o)[-600:], json.dumps(t["ops"])[-800:])
        return "text box, draw %d of %s: %s" % (b[0] + 1, json.dumps(t["ops"], ensure_ascii=False)[:1200], b[1])
    for tag, n, mx, my, depth in (("small", c.pick(3000, 20000), 5, 4, 14), ("large", c.pick(300, 2000), 23, 9, 30),
                                  ("flood", c.pick(60, 400), 24, 7, 8), ("floods", c.pick(12, 60), 60, 18, 8)):
        r = c.model_ok(c.tlc("TextBox", dict(MaxCols=mx, MaxRows=my, MaxOps=depth), simulate=n, depth=depth + 1,
                             next="FloodNext" if "flood" in tag else None,
                             invariants=["EnoughLaw"] if "flood" in tag else ["Laws"], action_constraint="Emit", label="TextBox-" + tag))
        tests, exps = [], []
        for x in r.lines:
            ops, exp = [], []
            for i, o in enumerate(x["ops"]):
                c.count_ops([o["op"]])
                if o["op"] == "write":
                    ops.append({"op": "write", "t": "".join(o["t"]).translate(TR), "s": o["s"]})
                elif o["op"] == "flood":
                    ops.append({"op": "write", "t": "".join(o["t"]).translate(TR), "s": o["s"], "n": o["n"]})
                    c.count_ops(["flood of " + o["kind"]])
                elif o["op"] == "resize":
                    ops.append({"op": "resize", "cols": o["cols"], "rows": o["rows"]})
                else:
                    keep = rng.random() < 0.5
                    ops.append({"op": "draw", "keep": keep})
                    exp.append(o["shown"])
                    c.count_ops(["drawn" if o["shown"] else "nothing"] + (["again"] if i and x["ops"][i - 1]["op"] == "draw" else []))
            tests.append({"ops": ops})
            exps.append(exp)
        c.compare("term", "box", tests, exps, desc, eq=lambda e, o: bad(e, o) is None)
        c.sample(tests[0]["ops"][:4])
    c.require_ops(["write", "resize", "draw", "drawn", "nothing", "again", "flood of lines", "flood of hidden", "flood of cells"])


def plain(t):
    """A copy of a tree."""
    return json.loads(json.dumps(t))


def leaves(t):
    if t["kind"] == "split":
        return leaves(t["docked"]) + leaves(t["flexed"])
    return [t]


@check("C23", ["sides of an area and wanted sizes are below 2^31 / 110"])
def c23(c):
    r = c.model_ok(c.tlc("Split", dict(MaxArea=c.pick(7, 12), MaxSize=c.pick(9, 14), Pcts="{0, 1, 10, 25, 33, 50, 66, 99, 100, 150}",
                                       Walks=c.pick(3000, 20000), Depth=3, BigArea=200, Kinds="{\"plain\"}"),
                         invariants=["Partition"], action_constraint="Emit"))
    tests, exps = [], []
    for x in r.lines:
        tests.append({"tree": x["tree"], "boxes": x["boxes"]})
        exps.append([[l["box"] for l in ls] for ls in x["leaves"]])
        c.count_ops([x["tree"].get("dock", "leaf"), "nested" if any(y.get("kind") == "split" for y in (x["tree"].get("docked", {}), x["tree"].get("flexed", {}))) else "single"])

    def desc(t, e, o):
        if not isinstance(o.get("out"), list):
            return "split %s: %s" % (json.dumps(t)[:500], json.dumps(o)[:800])
        i = next(i for i in range(len(e)) if i >= len(o["out"]) or e[i] != o["out"][i])
        return "split %s in area %s: panes are %s instead of %s" % (json.dumps(t["tree"]), t["boxes"][i], o["out"][i], e[i])
    c.compare("term", "split", tests, exps, desc)
    c.require_ops(["below", "above", "left", "right", "nested", "single"])
    c.sample(tests[-1])
    c.exhaustive_parts.append("every dock side, size, cap and area up to the bounds")


@check("C22", ["graph labels are a character per column"])
def c22(c):
    rng = random.Random(c.seed)
    tests = []
    for tag, big, n in (("small", 12, c.pick(6000, 25000)), ("large", 70, c.pick(1500, 6000))):
        r = c.model_ok(c.tlc("Split", dict(MaxArea=0, MaxSize=0, Pcts="{}", Walks=n, Depth=2, BigArea=big, Kinds="{\"text\", \"graph\", \"prompt\"}"),
                             invariants=["Partition"], action_constraint="Emit", label="Split-" + tag))
        for x in r.lines:
            for l in leaves(x["tree"]):
                c.count_ops([l["kind"]])
                l["text"] = "".join(rng.choice(list(CHARS.values()) + list("abcdef ") * 2) for _ in range(rng.choice([0, 3, 20, 100])))
                l["labels"] = [rng.randint(0, rng.choice([2, 5, 12])), rng.randint(0, rng.choice([2, 5, 12]))]
                l["unit"] = rng.random() < 0.3
                lo = rng.choice([0, 0, -100, 10 ** 12])
                span = rng.choice([0, 1, 10, 10 ** 6])
                l["points"] = [[[x, rng.choice([0, 1, -1, rng.uniform(-5, 5), rng.uniform(-1e6, 1e6), 12345, 12346, 12347])]
                                for x in sorted(lo + rng.randint(0, span) for _ in range(rng.choice([0, 1, 2, 8, 40])))]
                               for _ in range(rng.randint(0, 3))]
            tests.append(x)

    def desc(t, e, o):
        if not isinstance(o.get("out"), list):
            return "layout %s: %s" % (json.dumps(t["tree"])[:900], json.dumps(o)[:800])
        i = next(i for i in range(len(e)) if o["out"][i]["bad"])
        return "layout %s in %s: %s" % (json.dumps(t["tree"], ensure_ascii=False)[:1500], t["boxes"][i], o["out"][i]["bad"])
    outs = c.compare("term", "layout", tests, [[""] * len(t["boxes"]) for t in tests], desc, eq=lambda e, o: [x["bad"] for x in o] == e)
    if sum(x["cells"] for o in outs for x in o.get("out", [])) < 1000:
        raise RuntimeError("nothing was drawn")
    c.require_ops(["text", "graph", "prompt"])
    c.sample({k: tests[0][k] for k in ("boxes", "leaves")})


@check("C24", ["Ctrl-J, for which the prompt has no code of its own, is left out", "at most 25 keys are waiting when not read concurrently"])
def c24(c):
    tab = c.drive("term", "keytable", [{}])[0]["out"]
    files = {"keys.json": json.dumps(tab)}
    r = c.model_ok(c.tlc("Keys", dict(MaxOps=c.pick(60, 80), MaxPending=25), simulate=c.pick(1500, 12000), depth=c.pick(61, 81), files=files,
                         properties=["Accepted"], action_constraint="Emit"))
    tests = [{"ops": x["ops"]} for x in r.lines]
    # each key alone, and each after and before a character
    ch = next(i for i, k in enumerate(tab) if k["kind"] == "char") + 1
    for i in range(1, len(tab) + 1):
        tests += [{"ops": [i, 0]}, {"ops": [ch, i, 0, 0]}, {"ops": [i, ch, 0, 0, 0]}, {"ops": [ch, i, ch, i, i, ch, 0, 0, 0, 0, 0, 0]}]
    for t in tests:
        c.count_ops({"read" if o == 0 else tab[o - 1]["kind"] for o in t["ops"]})
    for mode, race, ts in (("keys", False, tests), ("keysconc", True, tests[:c.pick(200, 1500)])):
        outs = c.drive("term", mode, ts, race=race)
        recs = []
        for t, o in zip(ts, outs):
            if "out" in o:
                recs.append(dict(o["out"], t=t))
            elif not o.get("skipped"):
                c.violation("keys %s: %s" % (json.dumps([tab[k - 1]["name"] if k else "read" for k in t["ops"]], ensure_ascii=False), json.dumps(o)[:1500]),
                            dict(driver="term", mode=mode, race=race, test=t, expected="an answer", observed=o))

        def desc(rec, x):
            h = [tab[e["k"] - 1]["name"] if "k" in e else "read %s" % (bytes(b % 256 for b in e["b"])) for e in rec["h"]]
            return "keys: step %d is wrong of %s" % (x["step"], json.dumps(h[:x["step"] + 1], ensure_ascii=False)[-1500:])
        c.check_records("KeysTrace", recs, desc, files=files, label=mode, replay=lambda rec: dict(driver="term", mode=mode, race=race, test=rec["t"], expected="a history the specification accepts"))
    c.require_ops(["read", "char", "special", "unknown"])
    c.sample([tab[k - 1]["name"] if k else "read" for k in tests[0]["ops"]][:20])


@check("C26", ["the runner's screen is one whose events and drawings are observed", "the queue of the screen has room for the events"])
def c26(c):
    inv = ["OnlyCurrent", "WholeScreen", "Touched", "NoViewNoDraw"]
    c.model_ok(c.tlc("Runner", dict(MaxViews=3, MaxCols=2, MaxRows=2, MaxEvents=c.pick(6, 8)), invariants=inv, view="View_", label="Runner-all", workers=8))
    r = c.model_ok(c.tlc("Runner", dict(MaxViews=4, MaxCols=90, MaxRows=40, MaxEvents=18), next="RandNext", simulate=c.pick(1000, 8000), depth=19,
                         invariants=inv, action_constraint="Emit"))
    tests, exps = [], []
    for i, x in enumerate(r.lines):
        c.count_ops([o["op"] for o in x["ops"]])
        ops = [{k: v for k, v in o.items() if k != "effects"} for o in x["ops"]]
        eff = [o["effects"] for o in x["ops"]]
        burst = i % 4 == 3
        if burst:   # without resizes, for the size is the screen's when the event is handled
            keep = [0] + [j for j in range(1, len(ops)) if ops[j]["op"] == "key" or ops[j]["op"] == "repaint"]
            ops = [ops[j] for j in keep]
            v = ops[0]["v"]
            eff = [eff[0], [e for o in ops[1:] for e in ([{"e": "key", "k": o["k"]}] if o["op"] == "key" else
                                                         [{"e": "flush", "v": v}, {"e": "show", "on": [v]}] if v else [])]]
        tests.append({"ops": ops, "burst": burst, "held": i % 5 == 0})
        c.count_ops(["burst"] if burst else []), c.count_ops(["held"] if i % 5 == 0 else [])
        exps.append({"stuck": "", "steps": eff, "end": ""})

    def desc(t, e, o):
        out = o.get("out")
        if not isinstance(out, dict) or out["stuck"] or out["end"]:
            return "event loop: %s for %s" % (json.dumps(out or o)[-900:], json.dumps(t)[:900])
        i = next((i for i in range(len(e["steps"])) if i >= len(out["steps"]) or e["steps"][i] != out["steps"][i]), 0)
        return "event loop, event %d of %s: %s instead of %s" % (i, json.dumps(t["ops"][:i + 1])[-700:], json.dumps(out["steps"][i])[:500], json.dumps(e["steps"][i])[:500])
    c.compare("term", "runner", tests, exps, desc)
    c.require_ops(["start", "resize", "change", "update", "repaint", "key", "burst", "held"])
    c.sample(tests[0])
    ts = [{"workers": 4, "each": 100}] * c.pick(4, 40)
    c.compare("term", "runnerconc", ts, [{"stuck": "", "shown": 401}] * len(ts), lambda t, e, o: "event loop under concurrent requests: expected %s, got %s" % (e, json.dumps(o)[:2500]), race=True)
