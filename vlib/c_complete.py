"""C14-C17: completion."""
import json, random, re
from .core import check, CheckError

# the driver's second index, for completions after the index has changed
OTHER = {"foo": {"a": ["changed"], "c": []}, "fresh_total": {"a": ["x"]}, "sum": {"by": ["z"]}}
TIGHT = set("()[]{},=!~<>*/%^+-")


def unquote(v):
    return json.loads(v)


def tables(r):
    t = [x for x in r.lines if "words" in x][0]
    ix = {m: ({l: [unquote(v) for v in vs] for l, vs in ls.items()} if ls else {}) for m, ls in t["index"].items()}
    return t, ix


def states(r):
    return [x for x in r.lines if "toks" in x]


def isword(ch):
    return ch not in TIGHT and ch != " " and ch != ":"


def render(rng, toks, style=None):
    """The text of a prefix, ending where a new word can start."""
    style = rng.choice(["tight", "space", "mixed"]) if style is None else style
    s = ""
    for i, t in enumerate(toks):
        if s:
            a, b = s[-1], t[0]
            # operators must not merge, words neither; a colon ends a word only inside brackets
            need = (isword(a) or a in ":\"'") and (isword(b)) or (a in "=!<>~+-*/%^" and b in "=!<>~")
            if toks[i - 1][0] in "\"'" or b in "\"'":
                need = need and a not in "=~(,{"
            if need or style == "space" or (style == "mixed" and rng.random() < 0.4):
                s += rng.choice([" ", " ", "  ", "\t", "\n"]) if style == "mixed" else " "
        s += t
    if s and (s[-1] not in "()[]{},=><~*/%^+-" or style == "space" or rng.random() < 0.3):
        s += " "
    return s


def full(st, t):
    """Everything offered for the empty word."""
    res = []
    for k in st["allow"]:
        if k == "METRIC":
            res += list(t["index"])
        elif k == "LABEL":
            res += list(t["index"].get(st["metric"]) or {})
        elif k == "STR":
            res += list((t["index"].get(st["metric"]) or {}).get(st["label"]) or [])
        elif k in t["words"]:
            res += t["words"][k]
    return sorted(res, key=key)


def key(s):
    return s.encode("utf-8")


def earley(c, depth, walks, walklen, partials=3):
    """Prefixes of the grammar: all up to depth tokens, and random longer ones."""
    kw = dict(invariants=["NeverStuck", "Unambiguous", "Balanced", "Closable"], constraint="Emit")
    r = c.model_ok(c.tlc("Earley", dict(MaxTok=depth, NPartials=partials), workers=8, label="Earley-all", heap="8g", **kw))
    t, ix = tables(r)
    sts = states(r)
    if walks:
        parts = 4
        import concurrent.futures
        def one(k):
            return c.model_ok(c.tlc("Earley", dict(MaxTok=walklen, NPartials=partials), next="NextRandom", simulate=walks // parts,
                                    depth=walklen + 1, seed=c.seed * 10 + k, label="Earley-walk%d" % k, **kw))
        with concurrent.futures.ThreadPoolExecutor(parts) as ex:
            for w in ex.map(one, range(parts)):
                sts += [x for x in states(w) if len(x["toks"]) > depth]
    return t, ix, sts


def env(ix):
    return {"VERIF_INDEXES": json.dumps([ix, OTHER])}


TAILS = ["", "", "", ")", " + bar", "}", "\"", " by (", "foo", "\u00e9", "0", "'", "]"]
LEXICAL = {"UNARY": "ARITH", "LMATCH": "CMP"}


def describe(t, e, o):
    o = o.get("out", o) if isinstance(o, dict) else o
    msg = "completing %r: " % (t["q"][:t["pos"]] if "pos" in t else t,)
    if isinstance(o, list) and isinstance(e, list) and all(isinstance(x, str) for x in o):
        return msg + "missing %s, unexpected %s" % ([x for x in e if x not in o][:20], [x for x in o if x not in e][:20])
    return msg + "expected %s, got %s" % (json.dumps(e)[:600], json.dumps(o)[:600])


def request(rng, text, tail=None):
    tail = rng.choice(TAILS) if tail is None else tail
    return {"q": text + tail, "pos": len(text.encode("utf-8")), "idx": 0}


@check("C15", ["operators are classified by the reader's lexical classes: prefixes using a comparison where only a label match is allowed, or * / % ^ as a sign, are left out",
               "words of the query are written in lower case"])
def c15(c):
    t, ix, sts = earley(c, c.pick(6, 7), c.pick(400, 6000), c.pick(16, 24), partials=0)
    rng = random.Random(c.seed)
    tests, exps = [], []
    kinds = sorted(k for k in t["kinds"] if k != "EOF")
    for st in sts:
        text = render(rng, st["toks"])
        # label names, values and units are C16's
        labels = {"LABEL", "STR", "DUR"} & set(st["allow"])
        if not labels:
            tests.append(request(rng, text))
            exps.append(full(st, t))
        c.count_ops(["next-" + k for k in st["allow"]])
        # a token that the grammar does not allow here
        lex = {LEXICAL.get(k, k) for k in st["allow"]}
        inbrace = st["kinds"].count("{") > st["kinds"].count("}")
        inbracket = st["kinds"].count("[") > st["kinds"].count("]")
        # (a colon outside brackets starts a metric name)
        dead = [k for k in kinds if LEXICAL.get(k, k) not in lex and k != ":"]
        if "METRIC" in lex or "LABEL" in lex:
            dead = [k for k in dead if k not in ("METRIC", "LABEL")]
        if inbrace or inbracket:
            dead = [k for k in dead if k in (",", "}", "{", "LMATCH", "STR", "(", ")", "[", "ARITH")]
        for k in rng.sample(dead, min(len(dead), 1)):
            words = t["words"].get(k) or {"METRIC": ["foo"], "LABEL": ["foo"], "NUM": ["7"], "DUR": ["5m"], "STR": ['"x"'], ":": [":"]}.get(k, [k])
            w = rng.choice(words)
            tests.append(request(rng, render(rng, st["toks"] + [w], style="space"), tail=rng.choice(["", " "]) if w[-1] in TIGHT else ""))
            exps.append([])
            c.count_ops(["dead-" + k])
    c.compare("ac", "gen", tests, exps, describe, env=env(ix))
    c.require_ops(["next-" + k for k in t["kinds"]] + ["dead-" + k for k in kinds if k not in ("LMATCH", "UNARY", ":")])
    c.sample({"query": tests[-1]["q"], "expected": exps[-1]})
    c.notes["prefixes"] = len(sts)


@check("C16", ["the index holds names and values that the query language can spell; positions after an unterminated string are C17's"])
def c16(c):
    t, ix, sts = earley(c, c.pick(5, 6), c.pick(250, 4000), c.pick(14, 22), partials=c.pick(3, 6))
    rng = random.Random(c.seed)
    tests, exps = [], []
    for st in sts:
        text = render(rng, st["toks"])
        if set(st["allow"]) & {"LABEL", "STR", "DUR"}:
            tests.append(request(rng, text))
            exps.append(full(st, t))
            c.count_ops(["empty-" + k for k in set(st["allow"]) & {"LABEL", "STR", "DUR"}])
        for p, vs in st["offers"].items():
            tests.append(request(rng, text + p))
            exps.append(sorted(vs, key=key))
            if vs:
                c.count_ops(["partial-" + k for k in st["allow"] if k in ("METRIC", "LABEL", "STR", "DUR", "AGGR", "FVECTOR")])
    # with large indexes: every name and value stands for many
    hits = [i for i, e in enumerate(exps) if e]
    for i in rng.sample(hits, min(len(hits), c.pick(250, 1500))):
        tests.append(dict(tests[i], block=rng.choice([150, 700, 700, 1500])))
        exps.append(exps[i])
        c.count_ops(["block"])
    fixed = sorted({w for ws in t["words"].values() for w in ws} | {"s", "m", "h", "d", "w", "y"})
    c.compare("ac", "gen", tests, exps, describe, env=dict(env(ix), VERIF_FIXED=json.dumps(fixed)))
    c.require_ops(["block", "empty-LABEL", "empty-STR", "empty-DUR", "partial-METRIC", "partial-LABEL", "partial-STR", "partial-DUR", "partial-AGGR"])
    c.sample({"query": tests[-1]["q"], "expected": exps[-1]})


# families of texts that share prefixes, differ in one word, or are malformed
TEXTS = ["sum(foo) by (a, ab)", "sum(foobar) by (a, b)", "sum (foo) by (ab)", "max(foo) by (a, ab)", "sum by (a) (foo)", "sum without (a) (foobar)",
         'foo{a="x"}', 'foo{ab="x"}', 'foobar{a="x"}', 'foobar{b="x", instance="h"}', 'foo{a="x1",le="+Inf"} + bar', 'foo{a!="x"} - foobar{b=~"x"}',
         "foo and on (a) foobar", "foo or ignoring (a) foobar", "foo + on (a) group_left (b) foobar", "foo + ignoring (a) group_right foobar",
         "rate(foo[5m]) > bool 3", "rate(foobar[5m:1m] offset 1h) * 2", "1 + time()", "1 == bool scalar(foo)", "(-foo)", "-foo", "foo offset 5m",
         "foo[5m:]", "foo[", "foo{", "foo)", "foo) + ", "sum(foo)) by (", "((((", "}{", '"unterminated', "foo{a='", "foo{a=`x", "1 2 3", "foo foo ", "# comment",
         "foo # comment\n+ ", "sum(sum(sum(", "abs(foo, 1, foobar[5m], ", "job:rate + sum_total", "by by by", "é日本 ", "foo{a=\"é\"} ", "5", "foo[5", "",
         " ", "sum", "sum ", "su", "!", "foo !", "foo{a=~", "foo{a!", "a b", "foo{a=\"x\",}", "foo == bool 1 ", "foo offset", "foo offset ", "=~", "\xff"]


SAME = [["foo", "off", "bar"], ["foobar", "nosuch"], ["sum", "max", "avg"], ["rate", "ceil", "sort"], ["by", "on"], ["and", "foo"], ["a", "o", "b"], ["ab", "on", "le"], ["5m", "1h"],
        ['"x"', '"y"'], ["+", "-", ">", "=", "*"], ["==", "!=", "=~"], ["(", "[", "{"], [")", "]", "}"], ["time", "sqrt"], ["offset", "unless"]]
WORDS = re.compile(r'"[^"]*"|[A-Za-z_:][A-Za-z_:0-9]*|[0-9.]+[a-z]?|[=!<>~]+|\S')


def variants(x):
    """The text with a word (everywhere) replaced by one of the same length."""
    res = set()
    for w in set(WORDS.findall(x)):
        for g in SAME:
            if w in g:
                for y in g:
                    if y != w:
                        res.add(WORDS.sub(lambda m: y if m.group() == w else m.group(), x))
    return res


@check("C14", ["the answer of a process that never completed anything before is the reference, cross-checked with the grammar where it applies"])
def c14(c):
    t, ix, sts = earley(c, 3, c.pick(60, 200), 12, partials=0)
    rng = random.Random(c.seed)
    long = [s for s in sts if len(s["toks"]) > 5]
    texts = TEXTS + [render(rng, s["toks"]) for s in rng.sample(long, min(len(long), c.pick(30, 90)))]
    # the same with words of the same length
    groups = {}
    for x in TEXTS + rng.sample(texts[len(TEXTS):], min(len(texts) - len(TEXTS), 12)):
        g = [x]
        for y in sorted(variants(x)):
            if y not in texts:
                texts.append(y)
            g.append(y)
        for y in g:
            groups.setdefault(y, set()).update(z for z in g if z != y)
    lens = [len(x) for x in texts]
    vs = [[texts.index(y) + 1 for y in sorted(groups.get(x, ()))] for x in texts]
    lensf = {"lens.json": json.dumps(lens), "variants.json": json.dumps(vs)}
    from concurrent.futures import ThreadPoolExecutor
    sessions = []
    k = dict(NTexts=len(texts), NComp=2, NIndex=2)
    n = c.pick(600, 6000)
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(c.tlc, "Session", dict(k, MaxOps=c.pick(20, 40)), simulate=n // 4, depth=c.pick(21, 41), files=lensf, invariants=["TypeOK"],
                        action_constraint="Emit", seed=c.seed * 10 + j, label="Session-%d" % j) for j in range(4)]
        for f in fs:
            sessions += c.model_ok(f.result()).lines
    pairs = c.model_ok(c.tlc("Session", dict(k, MaxOps=2), init="InitPairs", next="NextPairs", files=lensf, invariants=["TypeOK"], action_constraint="EmitPairs",
                             label="Session-pairs", view="HistView")).lines
    rng.shuffle(pairs)
    sessions += pairs[:c.pick(1500, len(pairs))]
    swaps = [x for x in pairs[c.pick(1500, len(pairs)):] if x["ops"][1]["t"] in vs[x["ops"][0]["t"] - 1]]
    sessions += swaps[:c.pick(600, 6000)]
    # the reference answers
    need = {}
    for s in sessions:
        for o in s["ops"]:
            c.count_ops([o["op"]])
            if o["op"] != "index":
                # a request with the text after the cursor, and one without, are the same request
                need.setdefault((texts[o["t"] - 1][:o["p"]], o["i"] - 1), None)
    keys = sorted(need)
    e = env(ix)
    for kk, o in zip(keys, c.drive("ac", "fresh", [{"q": q, "pos": len(q.encode()), "idx": i} for q, i in keys], env=e)):
        if "out" not in o:
            raise CheckError("no reference answer for %r: %s" % (kk, o))
        need[kk] = o["out"]
    # cross-check with the grammar
    known = [s for s in sts if rng.random() < 0.3]
    c.compare("ac", "fresh", [dict(request(rng, render(rng, s["toks"]), tail="")) for s in known], [full(s, t) for s in known], describe, env=e)
    tests, exps = [], []
    for s in sessions:
        ops, exp = [], []
        for o in s["ops"]:
            if o["op"] == "index":
                ops.append({"c": o["c"], "op": "index", "idx": o["i"] - 1})
                continue
            q = texts[o["t"] - 1]
            ops.append({"c": o["c"], "op": "ask", "q": q[:o["p"]] if rng.random() < 0.5 else q, "pos": len(q[:o["p"]].encode())})
            exp.append(need[(q[:o["p"]], o["i"] - 1)])
        tests.append({"ops": ops})
        exps.append(exp)

    def desc(tt, ee, o):
        if "out" not in o:
            return describe(tt, ee, o)
        asks = [x for x in tt["ops"] if x["op"] == "ask"]
        i = next((i for i in range(len(ee)) if i >= len(o["out"]) or ee[i] != o["out"][i]), 0)
        return "session of %d operations, request %d: %s" % (len(tt["ops"]), i, describe(asks[i], ee[i], o["out"][i] if i < len(o["out"]) else {}))
    c.compare("ac", "session", tests, exps, desc, env=e)
    c.require_ops(["type", "type-on", "delete", "replace", "swap", "open", "again", "index"])
    c.sample(tests[0])
    c.notes["reference_answers"] = len(keys)


ATOMS = [x.encode() for x in [
    "f", "5", "_", ":", ".", "\"", "'", "`", "\\", "#", "\n", "@", "\t", ";", "$", "é", "日", "😀", "e\u0301", "\u2028", "\ufeff", "\0", "\u00a0",
    "foo", "sum", "by", "offset", "on", "bool", "and", "5m", "\"x\"", "rate", "a", "0x", "1e", "and_", "group_left"]] + [b"\xff", b"\xc3", b"\xa9", b"\xe6\x97", b"\xed\xa0\x80"]
SEPATOMS = [x.encode() for x in " []{}()+-*/%^=!><~,"]


@check("C17", ["texts are sequences of the harness's atoms: characters of every lexical class, parts of multi-byte characters, and whole words"])
def c17(c):
    t, ix, sts = earley(c, c.pick(3, 4), c.pick(60, 400), 14, partials=0)
    rng = random.Random(c.seed)
    qs = [render(rng, st["toks"]) for st in sts]
    qs = rng.sample(qs, min(len(qs), c.pick(250, 2000)))
    atoms = ATOMS + SEPATOMS
    for ch in sorted({ch.encode() for q in qs for ch in q}):
        if ch not in atoms:
            atoms.insert(0, ch)
    at = {a: i + 1 for i, a in enumerate(atoms)}
    queries = [[at[ch.encode()] for ch in q] for q in qs]
    seps = set(range(len(atoms) - len(SEPATOMS) + 1, len(atoms) + 1))
    r = c.model_ok(c.tlc("Total", dict(NAtoms=len(atoms), Seps=seps, MaxLen=2, Walks=c.pick(9000, 150000), WalkLen=c.pick(16, 24)),
                         invariants=["WordOK"], action_constraint="Emit", workers=1, files={"queries.json": json.dumps(queries)}))
    import base64
    b64 = lambda b: base64.b64encode(b).decode()
    tests = []
    for x in r.lines:
        c.count_ops(["word" if x["word"] else "no-word", "end" if x["cur"] == len(x["text"]) else "inside"])
        tests.append({"bytes": [b64(atoms[a - 1]) for a in x["text"]], "cur": x["cur"], "word": x["word"],
                      "after": [b64(b"".join(rng.choice(atoms) for _ in range(rng.randrange(1, 4))))]})
    # long and deeply nested texts
    for t in ["+".join(["foo"] * 40), "(" * 300, "foo{" + ",".join(['a="x"'] * 60), "sum(" * 40, "abs(" + "foo," * 40, "-" * 200, "foo[5m" * 30, "x" * 5000, '"' * 301, "5" * 3000, "foo offset " * 30]:
        tests.append({"bytes": [b64(t.encode()), b64(b" ")], "cur": 2, "word": 0, "after": []})
    c.compare("ac", "total", tests, ["ok"] * len(tests),
              lambda t, e, o: "text %r, cursor after atom %d: %s" % (b"".join(base64.b64decode(x) for x in t["bytes"]), t["cur"], json.dumps(o)[:1200]), env=env(ix), per_test=60)
    c.require_ops(["word", "no-word", "end", "inside"])
    c.sample({"text": repr(b"".join(base64.b64decode(x) for x in tests[-20]["bytes"])), "cursor": tests[-20]["cur"]})
