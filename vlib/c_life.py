"""C25: the life of the interactive prompt."""
import json, unicodedata
from .core import check


def width(s):
    return sum(2 if unicodedata.east_asian_width(ch) in "WF" else 1 for ch in s)


def scenarios(c, n, depth):
    r = c.model_ok(c.tlc("PromptLife", next="RandNext", constants=dict(MaxOps=depth, Room=28), simulate=n, depth=4 * depth,
                         invariants=["StopsOnce", "NoneBefore"], properties=["Grows", "NoneAfterStop", "NoneAfterCancel"],
                         action_constraint="Emit"))
    tests, exps = [], []
    for x in r.lines:
        ops, exp = [], []
        prev = None
        box, ran = None, ""
        for o in x["ops"]:
            if o["op"] == "place":
                box = o["box"]
            if o["op"] == "run":
                ran = "running"
            if o["op"] == "cancel":
                ran = "done"
            # the last row of the area is the cursor's when nothing is being edited
            fit = 0 if not box else box["rows"] - (1 if o["cur"] < 0 else 0)
            want = {"handled": o["handled"], "shutdowns": o["shutdowns"], "ran": ran, "rows": o["rows"][-fit:] if fit else [],
                    "cur": 2 + width("".join(o["curline"])) if o["cur"] >= 0 else -1, "bad": ""}
            quiet = want == prev or ran == "done" or o["op"] == "run" and not box
            t = {k: o[k] for k in ("op", "box", "initial", "keys") if k in o}
            if t["op"] == "run" and not o["initial"]:
                t.pop("initial")
            ops.append(dict(t, want=want, quiet=quiet))
            exp.append(want)
            prev = want
            c.count_ops([o["op"]] + (["quiet"] if quiet else []))
            if box and max(box["row"], box["col"]) >= 300:
                c.count_ops(["far away"])
            if len(o["handled"]) > 3 and len(set(o["handled"][-4:])) == 1:
                c.count_ops(["same line again"])
            if o["op"] == "cancel" and not box:
                c.count_ops(["cancel unplaced"])
            for k in o.get("keys", []) + o.get("initial", []):
                if k["k"] == "enter":
                    c.count_ops(["enter"] + ["stop"] * k["stop"] + ["hold"] * k["hold"] + ["long answer"] * (len(k["text"]) > 100))
        if any(o["op"] == "place" for o in ops[:next((i for i, o in enumerate(ops) if o["op"] == "run"), 0)]):
            c.count_ops(["placed first"])
        tests.append({"ops": ops})
        exps.append(exp + exp[-1:])
    return tests, exps


@check("C25", ["a line is typed when the prompt asks for one, or while the handler is busy or the prompt is not placed yet",
               "areas are wide enough for the lines", "no completions are offered"])
def c25(c):
    def desc(t, e, o):
        out = o.get("out")
        if not isinstance(out, list):
            return "prompt: %s after %s" % (json.dumps(o)[-900:], json.dumps(t)[:900])
        i = next((i for i in range(len(e)) if i >= len(out) or out[i] != e[i]), 0)
        if i >= len(out):
            i = len(out) - 1
        did = [{k: v for k, v in x.items() if k not in ("want", "quiet")} for x in t["ops"][:i + 1]]
        return "prompt: expected %s, got %s, after %s" % (json.dumps(e[i], ensure_ascii=False), json.dumps(out[i], ensure_ascii=False), json.dumps(did, ensure_ascii=False)[-2500:])
    tests, exps = scenarios(c, c.pick(1500, 9000), 12)
    c.compare("life", "life", tests, exps, desc, shards=32, timeout=800)
    k = c.pick(60, 600)
    c.compare("life", "life", tests[:k], exps[:k], desc, shards=16, race=True, timeout=800)
    c.require_ops(["run", "place", "type", "release", "cancel", "quiet", "enter", "stop", "hold", "placed first", "cancel unplaced",
                   "long answer", "far away", "same line again"])
    c.sample({k: v for k, v in tests[0]["ops"][0].items()})
