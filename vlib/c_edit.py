"""C18: the input line; C19: filtering."""
import json, random
from .core import check
from . import c_complete

CHARS = list("fos59:_\"'.A") + ["é", "日", "😀", "ß"]
SEPCHARS = list(" []{}()+-*/%^=!><~,")
UNITS = list("smhdwy")


@check("C18", ["accepting an offer is what go-prompt does: delete the word before the cursor up to the prompt's separators, then insert the offer"])
def c18(c):
    chars = CHARS + SEPCHARS + [u for u in UNITS if u not in CHARS]
    seps = {chars.index(x) + 1 for x in SEPCHARS}
    units = {chars.index(x) + 1 for x in UNITS}
    n = c.pick(1200, 20000)
    r = c.model_ok(c.tlc("EditBuffer", dict(NAtoms=len(chars), Seps=seps, Units=units, MaxOps=24), simulate=n, depth=25,
                         invariants=["TypeOK"], properties=["OnlyExtends"], action_constraint="Emit"))
    s = lambda seq: "".join(chars[a - 1] for a in seq)
    rng = random.Random(c.seed)
    tests, exps = [], []
    for x in r.lines:
        ops, exp = [], []
        for o in x["ops"]:
            c.count_ops([o["op"]])
            e = {"text": s(o["text"]), "before": s(o["text"][:o["cur"]])}
            if o["op"] == "complete":
                w = s(o["word"])
                offers = [{"unit": y["unit"], "value": ("" if y["unit"] else w) + s(y["suffix"]), "detail": "d%d" % rng.randrange(100)} for y in o["offers"]]
                # at times many more are offered, after and before these
                many = rng.choice([0, 0, 0, 0, 30, 300, 1500])
                lead = rng.choice([0, many])
                ops.append({"op": "complete", "offers": offers, "accept": o["accept"], "many": many, "lead": lead, "word": w})
                c.count_ops(["many"] if many else [])
                e["asked"] = [s(o["asked"])] if o["asked"] else []
                e["shown"] = [[s(y), offers[i]["detail"]] for i, y in enumerate(o["shown"])]
                e["more"] = [lead, many - lead] if o["asked"] else [0, 0]
                if not o["asked"]:
                    c.count_ops(["empty"])
                if o["accept"]:
                    c.count_ops(["accept-unit" if o["offers"][o["accept"] - 1]["unit"] else "accept-word",
                                 "accept-inside" if o["text"][o["cur"]:] else "accept-end"])
            else:
                ops.append({"op": o["op"], "text": s([o["a"]]) if o["op"] == "insert" else ""})
            exp.append(e)
        tests.append({"ops": ops})
        exps.append(exp)

    def eq(e, o):
        if not isinstance(o, list) or len(o) != len(e):
            return False
        for a, b in zip(e, o):
            # an empty input may or may not reach the completer; it offers nothing
            if "asked" in a and not a["asked"]:
                b = dict(b, asked=[])
            if a != b:
                return False
        return True

    def desc(t, e, o):
        out = o.get("out")
        if not isinstance(out, list):
            return "input line session: %s" % json.dumps(o)[:1000]
        i = next((i for i in range(len(e)) if i >= len(out) or e[i] != out[i]), 0)
        return "input line, step %d (%s): expected %s, got %s" % (i, json.dumps(t["ops"][i], ensure_ascii=False), json.dumps(e[i], ensure_ascii=False), json.dumps(out[i], ensure_ascii=False))
    c.compare("edit", "line", tests, exps, desc, eq=eq)
    c.require_ops(["many", "insert", "left", "right", "backspace", "complete", "empty", "accept-unit", "accept-word", "accept-inside", "accept-end"])
    c.sample(tests[0]["ops"][-3:])
    # the real completer behind it
    t, ix, sts = c_complete.earley(c, c.pick(3, 5), c.pick(60, 500), 14, partials=2)
    tests, exps = [], []
    for st in sts:
        text = c_complete.render(rng, st["toks"]).replace("\n", " ").replace("\t", " ")
        for p, vs in st["offers"].items():
            tests.append({"ix": ix, "text": text + p, "after": rng.choice(["", "", ")", " é", "x"])})
            exps.append({"ext": len(vs)})
    c.compare("edit", "chain", tests, exps, lambda t, e, o: "accepting completions of %r|%r: expected %s, got %s" % (t["text"], t["after"], e, json.dumps(o, ensure_ascii=False)[:800]))


QCHARS = ["a", "A", "b", "É", "é", "\"", "\\", "日", " ", "\n", "5", "_",
          "\u212a", "k", "\u023a", "\u2c65"]      # the other case of these takes fewer, or more, bytes
LOWER = {"A": "a", "É": "é", "\u212a": "k", "\u023a": "\u2c65"}
QUOTED = {"\"": "\\\"", "\\": "\\\\", "\n": "\\n"}


@check("C19", ["texts are made of the characters of the harness's table, letters of one simple case mapping"])
def c19(c):
    chars = QCHARS
    tab = {"lower": [chars.index(LOWER.get(x, x)) + 1 for x in chars], "quoted": ["<%d>" % i for i, x in enumerate(chars)]}
    r = c.model_ok(c.tlc("Filter", dict(NAtoms=len(chars), Walks=c.pick(1500, 15000)), files={"chars.json": json.dumps(tab)},
                         invariants=["Laws"], action_constraint="Emit"))
    s = lambda seq: "".join(chars[a - 1] for a in seq)

    def quoted(x):
        for i, ch in enumerate(chars):
            x = x.replace("<%d>" % i, QUOTED.get(ch, ch))
        return x
    k = lambda x: x.encode()
    rng = random.Random(c.seed)
    tests, exps = [], []
    for x in r.lines:
        c.count_ops([x["fn"] + ("-ic" if x["ic"] else ""), "empty" if not x["p"] else "some", "hit" if x["exp"] else "none"])
        tests.append({"fn": x["fn"], "items": [s(y) for y in x["items"]], "p": s(x["p"]), "ic": x["ic"]})
        exps.append({"exp": sorted((s(y) for y in x["exp"]), key=k), "quoted": sorted((quoted(y) for y in x["quoted"]), key=k), "kept": True, "kept2": True})
    # the same at scale: long common beginnings, and many items for each
    small = [i for i, t in enumerate(tests) if len(t["items"]) < 10]
    for i in rng.sample(small, min(len(small), c.pick(800, 6000))):
        t, e = tests[i], exps[i]
        pad = "Zz" * rng.choice([0, 1, 20, 150, 2500 if len(t["items"]) < 4 else 40])
        n = rng.choice([1, 5, 40, 300]) if len(pad) < 400 else 1
        # (of other letters than the table's)
        tails = ["" if j == 0 else "Q" + "".join("cdefghijlm"[int(ch)] for ch in "%04d" % j) for j in range(n)]
        grow = lambda vs: sorted((pad + v + w for v in vs for w in tails), key=k)
        # (what stands for a member of a quoted collection ends with the quote)
        tests.append(dict(t, items=grow(t["items"]), p=pad + t["p"]))
        exps.append(dict(e, exp=grow(e["exp"]), quoted=sorted(('"' + pad + v[1:-1] + w + '"' for v in e["quoted"] for w in tails), key=k)))
        c.count_ops(["scale"])
    c.compare("edit", "filter", tests, exps, lambda t, e, o: "filtering %s: expected %s, got %s" % (json.dumps(t, ensure_ascii=False)[:600], json.dumps(e)[:500], json.dumps(o)[:500]))
    c.require_ops(["scale", "prefix", "prefix-ic", "fuzzy", "fuzzy-ic", "empty", "some", "hit", "none"])
    c.sample(tests[-1])
