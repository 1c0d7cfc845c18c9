"""C18: many pipelines at once do not disturb each other"""
from .. import gen, model, judge as J

RULE = ("1-4 rounds of 1-40 random pipelines (commands, functions, iterators, arguments, failures) run, read and waited for by a task each, in the same, "
        "a new or a closed and replaced event loop, with signalfd and without; some end all at the same moment, also as others are stopped, and some are held - readers that do not read, functions and "
        "processes that wait - until all others have ended, which a round can only end with if they do not block them; output, exit statuses and "
        "failures of each compared with the model of it alone; non-trivial if pipelines ran beside each other, distinct by description")
QUICK = {"cases": 130, "budget": 22, "batch": 8}
THOROUGH = {"cases": 20000, "budget": 420, "batch": 8}
TIMEOUT = 75
REQUIRED = {"pipelines compared": 600, "ended at the same moment": 100, "ended beside held ones": 80, "rounds in new loops": 40, "ended as others were stopped": 25, "failed": 100}
ASSUMPTIONS = ["What does not end within 25 seconds beside a pipeline that is held is blocked by it"]


def ordinary(g, rng):
    """(node, whether its output is text)"""
    k = rng.random()

    def ending(args):
        k = rng.random()
        if rng.random() < 0.3:
            args.append("e:" + ("err" + g.id("E")).encode().hex())
        if k < 0.3:
            args.append("x:%d" % rng.randrange(1, 256))
        elif k < 0.4:
            args.append("k:%d" % rng.choice([1, 2, 9, 15]))
        return args
    if k < 0.35:
        parts = [g.source(lines=True)] + [g.filter(lines=True) if rng.random() < 0.6 else g.function(ops=["up", "id", "num", "lag", "cnt"])
                                          for i in range(rng.choice([0, 0, 1, 2]))]
    elif k < 0.55:
        it = g.iterator(n=rng.choice([0, 1, 5, 20]), kinds=["gen", "list", "fagen", "fsleep", "iterable"], big=False)
        parts = [it, g.filter(lines=True)] if rng.random() < 0.6 else [it, g.function(ops=["up", "id", "lag"])]
        if rng.random() < 0.2:
            parts[0][1] = rng.choice(["gen", "fagen", "iterable"])
            parts[0][2].append({"raise": rng.choice(["ValueError", "KeyError"])})
    elif k < 0.65:
        a = g.cmd(ending(["gl:%s:%d:10:0" % (g.id("T"), rng.choice([0, 3, 300]))])) if rng.random() < 0.6 else g.iterator(n=3, kinds=["gen", "list"], big=False)
        parts = [g.cmd(["args", {"n": a}])]
    elif k < 0.75:
        return ["+", g.source(lines=True), g.source(lines=True)]
    else:
        parts = [g.cmd(ending(["gl:%s:%d:%d:%d" % (g.id("T"), rng.choice([0, 1, 10, 200]), rng.choice([5, 50]), rng.choice([0, 0, 300]))]))]
        if rng.random() < 0.4:
            parts.append(g.cmd(ending(["lcat"])))
    return g.pipe(parts)


def held(g, rng, gates):
    """(node, kind) of something that only goes on when told to"""
    k = rng.random()
    if k < 0.3:
        # A function that waits
        id = g.id("F")
        gates.append(id)
        node = ["fn", "gate", {"items": [{"s": "x%d" % i} for i in range(rng.choice([0, 3]))]}, id]
        if rng.random() < 0.5:
            node = ["|", node, g.cmd(["lcat"])]
        return node, False
    if k < 0.65:
        # Nobody reads what is written
        id = g.id("C")
        gates.append(id)
        src = g.cmd(["gl:%s:%d:100:0" % (g.id("T"), rng.choice([10, 3000]))])
        if rng.random() < 0.6:
            src = ["it", rng.choice(["gen", "list", "fagen"]), [{"s": "y" * 200}] * rng.choice([3, 500]), g.id("I")]
        if rng.random() < 0.3:
            src = ["|", src, g.function(ops=["id", "up"])]
        return ["|", src, g.cmd(["wait:@D/go_" + id, "lcat"], id=id)], False
    node = g.cmd(["gl:%s:%d:100:0" % (g.id("T"), rng.choice([5, 3000]))])
    if rng.random() < 0.4:
        node = ["|", node, g.function(ops=["id", "num"])]
    return node, True


def one(rng, tier):
    g = gen.Gen(rng)
    rounds = []
    anyquick = False
    for r in range(rng.choice([1, 1, 1, 2, 3, 4])):
        pipes = {}
        gates = []
        rid = "r%d" % r
        n = rng.choice([1, 2, 3, 4, 6, 8, 12]) if rng.random() < 0.85 else rng.choice([20, 30, 40])
        burst = rng.random() < 0.5
        freeze = rng.random() < 0.15
        if freeze:
            burst = True
            n = rng.choice([2, 3, 5, 8])
        quick = not freeze and rng.random() < 0.15
        if quick:
            burst = False
            n = rng.choice([1, 1, 2])
        for i in range(n):
            d = {"start": rng.choice([0, 0, 0, 1, 5, 20]), "nap": rng.choice([0, 0, 0, 1, 5]), "held": False, "holdread": False,
                 "ownenv": rng.random() < 0.3, "burst": False}
            k = rng.random()
            if freeze and k < 0.5:
                # Is stopped as others end
                id = g.id("C")
                gates.append(id)
                d["node"] = g.cmd(["wait:@D/go_" + id, "w:6869"], id=id)
                d["held"] = d["stopper"] = True
            elif freeze:
                d["node"] = g.cmd(["wait:@D/burst_" + rid, rng.choice(["x:%d" % rng.randrange(256), "k:%d" % rng.choice([2, 9, 15]), "nop:"])])
                d["burst"] = True
            elif quick:
                # Has ended before anything listens for it
                d["node"] = g.cmd([rng.choice(["x:%d" % rng.randrange(256), "nop:", "k:15"])])
                d["start"] = 0
            elif k < 0.15:
                d["node"], d["holdread"] = held(g, rng, gates)
                d["held"] = True
            elif burst and k < 0.75:
                args = ["wait:@D/burst_" + rid]
                if rng.random() < 0.5:
                    args.append("gl:%s:%d:20:0" % (g.id("T"), rng.choice([1, 3])))
                args.append(rng.choice(["x:%d" % rng.randrange(256), "x:%d" % rng.randrange(256), "k:%d" % rng.choice([2, 9, 15]), "nop:"]))
                d["node"] = g.cmd(args)
                d["burst"] = True
                if rng.random() < 0.2:
                    d["node"] = ["|", d["node"], g.cmd(["lcat"])]
            else:
                d["node"] = ordinary(g, rng)
            d["mode"] = rng.choice(["iterbytes", "raiter"] if d["holdread"] else ["file", "runfile", "iterbytes", "raiter", "aiter"])
            if freeze:
                d["mode"] = "runfile"
                d["start"] = rng.choice([0, 0, 1])
            if d["mode"] not in ("iterbytes", "raiter", "aiter"):
                d["nap"] = 0
            pipes["%s_%d" % (rid, i)] = d
        rounds.append({"id": rid, "pipes": pipes, "gates": gates, "burst": rng.choice([10, 60, 150]) if burst else 0,
                       "loop": rng.choice(["new", "run"] if quick else ["same", "same", "new", "run"])})
        anyquick = anyquick or quick
    d = g.delays()
    if anyquick:
        d["fork"] = [0.9, 0.02]
        d.pop("child", None)
    d.pop("read", None)
    d.pop("write", None)
    return {"scn": "many", "p": {"rounds": rounds}, "delays": d, "cfg": g.cfg(0.4)}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    j.check(not obs["blocked"], "blocked", lambda: "did not end beside others: %s" % (
        [[n, d] for r in p["rounds"] for n, d in r["pipes"].items() if n in obs["blocked"]],))
    if obs["blocked"]:
        return
    for r, info in zip(p["rounds"], obs["rounds"]):
        j.eq(info["held ended"], 0, "blocked", "held pipelines that have ended")
        if info["held"]:
            j.count("ended beside held ones", info["beside"])
        if r["loop"] != "same":
            j.count("rounds in new loops")
        j.maximum("pipelines at once", len(r["pipes"]))
        b = sum(d["burst"] for d in r["pipes"].values())
        if b and any(d.get("stopper") for d in r["pipes"].values()):
            j.count("ended as others were stopped", b)
        if b > 1:
            j.count("ended at the same moment", b)
        for n, d in r["pipes"].items():
            ev = model.evaluate(d["node"], None)
            o = dict(obs["pipes"][n], gotfile=obs.get("gotfile", {}))
            c = {"p": {"mode": d["mode"]}}
            before = len(j.problems)
            e = J.check_failures(j, c, {"obs": o}, ev)
            J.check_output(j, c, {"obs": o}, ev, workdir)
            J.check_inputs(j, {"obs": o}, ev, workdir)
            rp = e["pipeline"] if e and "pipeline" in e else o.get("rp")
            if rp:
                J.check_parts(j, rp, ev)
            if e:
                j.check(not e.get("otherpipeline"), "failures", "the exception is about another pipeline")
                j.count("failed")
            j.count("pipelines compared")
            j.count("mode " + d["mode"])
            if len(j.problems) > before:
                j.fail("which", "%s of %d: %s" % (n, len(r["pipes"]), d))
                return
    j.check(not j_load(workdir, obs), "output", "something was written to standard out of the shell")
    j.eq(obs["running"], 0, "running", "pipelines left in running_pipelines")
    if sum(len(r["pipes"]) for r in p["rounds"]) > 1:
        j.nontrivial()
    J.check_conserved(j, res)


def j_load(workdir, obs):
    return J.load(workdir, obs["stdout"])
