"""C31: the set collections."""
import json, random
from .core import check

TYPES = ["byte", "int", "int32", "int64", "string", "uint64"]


@check("C31", ["elements are drawn from a table of 12 values per element type, extreme ones included, or of blocks of consecutive values; floating point sets do not exist"])
def c31(c):
    rng = random.Random(c.seed)
    const = dict(NVals=12, NRegs=3, Types=len(TYPES))
    pairs = c.model_ok(c.tlc("Sets", dict(const, Depth=1), init="PairInit", next="PairNext",
                             action_constraint="PairEmit", invariants=["Laws"], label="pairs"))
    depth = c.pick(25, 60)
    walks = c.model_ok(c.tlc("Sets", dict(const, Depth=depth), simulate=c.pick(3000, 40000), depth=depth + 2,
                             action_constraint="Emit", invariants=["Laws"], label="walks"))
    lines = pairs.lines + walks.lines
    tests = [{"typ": x["typ"], "ops": [{k: o[k] for k in ("op", "r", "a", "b", "xs")} for o in x["ops"]]} for x in lines]
    exps = [[{"ans": o["ans"], "regs": o["regs"]} for o in x["ops"]] for x in lines]
    # every element standing for a block of elements
    for i in rng.sample(range(len(pairs.lines), len(lines)), c.pick(240, 2400)):
        n = rng.choice([17, 21]) if TYPES[tests[i]["typ"] - 1] == "byte" else rng.choice([20, 100, 500])
        tests.append(dict(tests[i], block=n, ops=[o for o in tests[i]["ops"]]))
        exps.append(exps[i])
        c.count_ops(["block"])
    # (four elements of 64 values are all there are of a byte)
    large = [i for i in range(len(pairs.lines)) if all(len(o["xs"]) > 2 for o in tests[i]["ops"][:2])]
    full = [i for i in large if all(len(o["xs"]) == 4 for o in tests[i]["ops"][:2])]
    for i in full * 2 + rng.sample(large, c.pick(600, len(large))):
        n = rng.choice([64, 64, 60, 50] if TYPES[tests[i]["typ"] - 1] == "byte" else [64, 100, 300])
        tests.append(dict(tests[i], block=n))
        exps.append(exps[i])
    # sets of thousands
    wide = {}
    for i in rng.sample(large, len(large)):
        o, xs = tests[i]["ops"][-1], [set(o["xs"]) for o in tests[i]["ops"][:2]]
        if TYPES[tests[i]["typ"] - 1] != "byte":
            # (the same register twice; sets that partly overlap; others)
            k = 0 if o["a"] == o["b"] else 1 if xs[0] & xs[1] and xs[0] - xs[1] and xs[1] - xs[0] else 2
            wide.setdefault((tests[i]["typ"], o["op"], k), []).append(i)
    for k in sorted(wide):
        for j, i in enumerate(wide[k][:c.pick(4, 30)]):
            tests.append(dict(tests[i], block=[4200, 1100, 9000, 2100][j % 4]))
            exps.append(exps[i])
            c.count_ops(["thousands"])
    for x in lines:
        c.count_ops(["type-" + TYPES[x["typ"] - 1]] + [o["op"] for o in x["ops"]])

    def describe(t, e, o):
        if not isinstance(o, list):
            return "sets of %s: %s: %s" % (TYPES[t["typ"] - 1], json.dumps(t["ops"])[:300], json.dumps(o))
        i = next(i for i in range(len(e)) if i >= len(o) or o[i] != e[i])
        return "sets of %s, operation %d (%s) after %s: expected %s, got %s" % (
            TYPES[t["typ"] - 1], i, json.dumps(t["ops"][i]), json.dumps(e[i - 1]["regs"] if i else []), json.dumps(e[i]), json.dumps(o[i]) if i < len(o) else "nothing")
    c.compare("sets", "run", tests, exps, describe)
    c.require_ops(["block", "thousands"] + ["type-" + t for t in TYPES] +
                  ["new", "keyset", "nil", "insert", "delete", "union", "intersection", "difference", "superset", "equal",
                   "has", "hasall", "hasany", "len", "list", "unsorted", "pop"])
    c.sample({"type": TYPES[tests[-1]["typ"] - 1], "operations": tests[-1]["ops"][:6], "expected": exps[-1][:6]})
