"""C01: output arrives complete, unchanged and in order"""
from .. import gen, model, judge as J

RULE = ("Random pipelines of 1-5 commands and groups (random bytes or UTF-8 lines of 0-200000 bytes, random write chunks and delays) "
        "read in 8 ways or left to standard out, with delays around fork, short reads and small pipes injected; "
        "non-trivial if at least one process was started and the output compared, distinct by description and way to read")
QUICK = {"cases": 700, "budget": 22}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"bytes compared": 100000, "processes started": 200}

TEXT_MODES = ["bytes", "str", "iter", "list", "aiter", "raiter", "iterbytes", "slowbytes", "+", "~"]
BIN_MODES = ["bytes", "bytes", "iterbytes", "slowbytes", "+", "await"]


def one(rng, tier):
    g = gen.Gen(rng)
    g.wild = rng.random() < 0.3
    k = rng.random()
    if k < 0.45:
        text = True
    else:
        text = False
    n = rng.choice([0, 0, 1, 1, 2, 3, 4]) if tier == "quick" else rng.choice([0, 1, 2, 3, 5, 8])
    if k > 0.75:
        # a + b
        def group(depth):
            if depth == 0 or rng.random() < 0.5:
                s = g.source(lines=True)
                if rng.random() < 0.3:
                    s = ["|", s, g.filter(lines=True)]
                return s
            return ["+", group(depth - 1), group(depth - 1)]
        node = ["+", group(1), group(1)]
        for i in range(rng.choice([0, 0, 1, 2])):
            node = ["|", node, g.filter(lines=True)]
        mode = rng.choice(TEXT_MODES)
    else:
        parts = [g.source(text=text)] + [g.filter(text=text) for i in range(n)]
        node = g.pipe(parts)
        mode = rng.choice(TEXT_MODES if text else BIN_MODES)
    long = rng.random() < 0.005
    if long:
        # A very long line
        node = g.pipe([["it", "list", [{"bigs": 1100000}, {"s": "end"}], g.id("I")]]
                      + [g.cmd(["cat:0:0"]) for i in range(1)])
        mode = rng.choice(["iter", "list", "aiter", "raiter"])
    if g.wild and mode == "str":
        mode = "iter"
    return {"scn": "pl", "p": {"node": node, "mode": mode}, "delays": {} if long else g.delays(), "cfg": g.cfg()}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    ev = model.evaluate(p["node"], None)
    J.observed(j, res)
    J.expect_ok(j, res)
    if J.check_output(j, case, res, ev, workdir) and res["mon"]["forks"]:
        j.nontrivial([p["node"], p["mode"]])
    j.count("mode " + p["mode"])
