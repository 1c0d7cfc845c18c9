"""C02: Python parts exchange lines losslessly with processes"""
from .. import gen, model, judge as J

RULE = ("Random pipelines of 1-5 parts of which at least one is a Python iterator (12 kinds), function (8 behaviours in 5 styles, some "
        "reading only part of their input) or coroutine, with items of all types and of up to 66000 bytes; output, the lines each function "
        "got, and the number of items taken compared with the model; non-trivial if a Python part was run, distinct by description")
QUICK = {"cases": 700, "budget": 22}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"bytes compared": 50000, "lines read by functions": 1000}
MODES = ["bytes", "str", "iter", "list", "aiter", "raiter", "iterbytes", "slowbytes", "+", "~", "await"]


def one(rng, tier):
    g = gen.Gen(rng)
    g.wild = rng.random() < 0.3
    stdin = None
    k = rng.random()
    parts = []
    if k < 0.5:
        it = g.iterator()
        if rng.random() < 0.15 and it[1] not in ("fagen", "fsleep"):
            it[2] = [({"co": i} if rng.random() < 0.5 else i) for i in it[2] if "none" not in i]
        if rng.random() < 0.1:
            it = ["it", rng.choice(["coro", "plain"]), [rng.choice([{"i": 7}, {"obj": 3}, {"f": 2.5}])], g.id("I")]
        elif rng.random() < 0.1:
            it = ["it", "coro", [g.item(none=False)], g.id("I")]
        parts.append(it)
    elif k < 0.85:
        parts.append(g.source(text=True))
    else:
        stdin = g.text_bytes(rng.choice([0, 1, 5, 40]))
        parts.append(g.function())
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    for i in range(n):
        if rng.random() < 0.6:
            k = rng.random()
            if k < 0.75:
                parts.append(g.function())
            else:
                parts.append(g.function(ops=["take", "ignore", "sink"]))
        else:
            parts.append(g.filter(text=True))
    if not any(p[0] in ("it", "fn") for p in parts):
        parts.append(g.function())
    node = g.pipe(parts)
    if rng.random() < 0.15:
        # Interleaved with another one
        items = [{"s": "%s-%d-%s" % (g.id("L"), i, "q" * rng.choice([0, 10, 3000]))} for i in range(rng.choice([1, 10, 60]))]
        other = g.source(lines=True) if rng.random() < 0.7 else ["it", "fagen", [{"s": g.id("M") + "r" * rng.choice([0, 2000])} for i in range(rng.choice([1, 40]))], g.id("I")]
        node = ["+", ["it", rng.choice(["gen", "fagen", "list"]), items, g.id("I")], other]
        if rng.random() < 0.5:
            node = ["|", node, g.function(lines=True)]
        stdin = None
    p = {"node": node, "mode": rng.choice(MODES)}
    if g.wild and p["mode"] == "str":
        p["mode"] = "list"
    if stdin is not None:
        p["stdin"] = stdin.hex()
    return {"scn": "pl", "p": p, "delays": g.delays(), "cfg": g.cfg()}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def items_of(node, res):
    if node[0] == "it":
        res[node[3]] = node
    elif node[0] in ("|", "+"):
        items_of(node[1], res)
        items_of(node[2], res)
    return res


def judge(case, res, j, workdir):
    p = case["p"]
    stdin = bytes.fromhex(p["stdin"]) if "stdin" in p else None
    ev = model.evaluate(p["node"], stdin)
    J.observed(j, res)
    J.check_failures(j, case, res, ev)
    J.check_output(j, case, res, ev, workdir)
    J.check_inputs(j, res, ev, workdir)
    parts = {x.id: x for x in ev.parts}
    for id, node in items_of(p["node"], {}).items():
        n = res["obs"]["wrote"].get(id)
        if n is None or node[1] in ("list", "tuple", "flist", "plain", "coro"):
            continue
        j.count("items taken", n)
        if parts[id].may:
            j.check(n <= len(node[2]), "items", "%s: %d items taken, there are %d" % (id, n, len(node[2])))
        else:
            j.eq(n, len(node[2]), "items", "%s: items taken" % id)
    j.nontrivial([p["node"], p["mode"]])
    j.count("mode " + p["mode"])
    for x in ev.parts:
        if x.kind == "fn":
            j.count("Python parts run")
