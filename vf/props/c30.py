"""C30: processes the user starts without pieshell are the user's own"""
from .. import gen, model, judge as J

RULE = ("Random histories of 1-4 processes started with subprocess, os.fork, os.popen, asyncio and multiprocessing, which end with random statuses or "
        "signals or are stopped when told to, before, while and after 1-5 pipelines (failing, stopped and continued ones too) are run in the foreground, background and "
        "in tasks, and are waited for later, in different ways; their statuses and output, what pieshell sent signals to, and the statuses of the "
        "pipelines are compared with what was told to each; non-trivial if a process ended while a pipeline was run or waited for, distinct by history")
QUICK = {"cases": 380, "budget": 25}
THOROUGH = {"cases": 40000, "budget": 400}
REQUIRED = {"own processes waited for": 400, "ended before they were waited for": 250, "pipelines run": 500, "own processes stopped": 10}
KINDS = ["popen", "popen", "fork", "fork", "asyncio", "asyncio", "multi", "ospopen"]


def one(rng, tier):
    g = gen.Gen(rng)
    top = rng.choice(["task", "task", "sync"])
    procs = {}
    want = {}
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        id = g.id("O")
        kind = rng.choice(KINDS)
        sig = rng.choice([9, 15, 1, 2]) if kind not in ("multi", "ospopen") and rng.random() < 0.25 else 0
        out = "out" + id if kind in ("popen", "asyncio", "ospopen") and rng.random() < 0.5 else ""
        procs[id] = {"kind": kind, "code": rng.choice([0, 1, 2, 3, 42, 255, rng.randrange(256)]), "sig": sig, "out": out}

    def pipe():
        k = rng.random()
        if k < 0.4:
            return g.cmd([rng.choice(["nop:", "x:%d" % rng.randrange(256), "k:9", "w:6869", "sl:3"])])
        if k < 0.7:
            return ["|", g.source(lines=True), g.cmd(["lcat"] + (["x:3"] if rng.random() < 0.3 else []))]
        if k < 0.85:
            return ["|", g.iterator(n=2, kinds=["list", "gen"], big=False), g.cmd(["cat"])]
        return ["|", g.source(lines=True), g.function(lines=True)]
    todo = {id: ["start", "end", "dead", "wait"] if rng.random() < 0.75 else ["start", "end", "wait"] for id in procs}
    for id, t in todo.items():
        if procs[id]["kind"] == "fork" and rng.random() < 0.25:
            t.insert(1, "stopown")
    pipes = {}
    jobs = []
    steps = []
    n = 0
    extra = rng.choice([1, 2, 3, 5])
    while any(todo.values()) or extra or jobs:
        ids = [i for i in todo if todo[i]]
        k = rng.random()
        if k < 0.5 and ids:
            id = rng.choice(ids)
            op = todo[id].pop(0)
            if op == "wait":
                steps.append(["wait", id, rng.choice(["poll", "block"])])
            else:
                steps.append([op, id])
        elif k < 0.7 and extra:
            extra -= 1
            pid = "P%d" % n
            n += 1
            node = pipe()
            how = rng.choice(["fg", "fg", "iter", "run", "run"])
            steps.append([how, pid, node])
            pipes[pid] = [node, how]
            if how == "run":
                jobs.append(pid)
        elif k < 0.8 and jobs:
            id = rng.choice(jobs)
            jobs.remove(id)
            steps.append(["await", id])
        elif k < 0.83 and jobs:
            steps.append(["stop", rng.choice(jobs)])
        elif k < 0.88:
            steps.append([rng.choice(["subprocess", "system"]), rng.randrange(256), len(steps)])
        elif k < 0.93:
            steps.append(["sleep", rng.choice([0, 1, 5])])
    delays = {k: v for k, v in g.delays().items() if k in ("fork", "child")}
    return {"scn": "own", "p": {"procs": procs, "steps": steps, "top": top}, "delays": delays, "cfg": g.cfg(0.35), "pipes": pipes}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    for e in obs["errors"]:
        j.fail("own", e)
    for id, c in p["procs"].items():
        if id not in obs["own"]:
            continue
        status, out = obs["own"][id]
        want = -c["sig"] if c["sig"] else c["code"]
        j.eq(status, want, "own", "status of a process started with %s" % c["kind"])
        if out is not None:
            j.eq(out, c["out"], "own", "output of a process started with %s" % c["kind"])
        j.count("own processes waited for")
    for s in p["steps"]:
        if s[0] in ("subprocess", "system"):
            j.eq(obs["own"]["run%d" % s[2]][0], s[1], "own", "status of " + s[0])
            j.count("run and waited for at once")
        elif s[0] == "dead":
            j.count("ended before they were waited for")
            j.nontrivial()
    for id, st in obs.get("stopped", []):
        j.check(st, "own", "stopping %s was not seen" % id)
        j.count("own processes stopped")
    seen = set()
    for pid, got in obs["pipes"]:
        node, how = case["pipes"][pid]
        seen.add(pid)
        ev = model.evaluate(node, None)
        j.count("pipelines run")
        if isinstance(got, int):
            continue
        codes = {x.id: x.code for x in ev.parts if x.kind == "c"}
        got = dict(got)
        j.eq(sorted(got), sorted(x.id for x in ev.parts), "pipelines", "parts of a pipeline")
        for id, c in codes.items():
            if id in got:
                j.eq(got[id], c, "pipelines", "status of " + id)
    j.eq(sorted(seen), sorted(case["pipes"]), "pipelines", "pipelines that ended")
    j.eq(obs["listed"], 0, "pipelines", "pipelines still listed")
    J.check_conserved(j, res)
