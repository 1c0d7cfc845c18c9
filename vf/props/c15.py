"""C15: stopped, backgrounded and resumed pipelines lose nothing"""
from .. import gen, model, judge as J

RULE = ("Random sessions with 1-3 jobs (pipelines, groups, arguments, functions) whose parts end only when told to, started in the foreground "
        "and background, stopped with SIGTSTP to the shell while waited for, and by suspend() and others, and continued with bg, fg, restart() and wait() in "
        "11 ways, 3-15 times; after every step the state of every process is compared with what it has to be and stopped ones must not "
        "write anything, at the end output and exit statuses are compared with the model; non-trivial if processes were stopped, distinct by session")
QUICK = {"cases": 300, "budget": 24}
THOROUGH = {"cases": 30000, "budget": 400}
REQUIRED = {"suspended waits": 250, "processes seen stopped": 500, "jobs ended after having been stopped": 150, "waiters": 50, "jobs compared": 250}
ASSUMPTIONS = ["The signals are sent to the shell alone, not from a terminal", "A process is stopped or continued within 5 seconds of the call"]


def job(g, rng, n, redirect):
    gated = []

    def cmd(first, arg=False):
        id = g.id("C")
        args = []
        if rng.random() < 0.8 or not gated:
            gated.append(id)
            if not first and rng.random() < 0.5:
                args.append("lcat")
            if rng.random() < 0.6:
                args.append("gl:%s:%d:5:%d" % (g.id("T"), rng.choice([1, 5, 20]), rng.choice([0, 200, 2000])))
            args.append("wait:@D/go_%s" % id)
        if not first and "lcat" not in args:
            args.append("lcat")
        if rng.random() < 0.6:
            args.append("gl:%s:%d:5:%d" % (g.id("T"), rng.choice([1, 5, 20]), rng.choice([0, 200, 2000])))
        end = []
        k = rng.random()
        if k < 0.25:
            end.append("x:%d" % rng.randrange(1, 256))
        elif k < 0.35:
            end.append("k:%d" % rng.choice([2, 15]))
        elif k < 0.5 and not arg:
            a = cmd(True, True) if rng.random() < 0.7 else ["it", "gen", [{"s": "it"}], g.id("I")]
            args += ["args", {"n": a}]
        return g.cmd(args + end, id=id)
    parts = []
    for i in range(rng.choice([1, 1, 2, 3])):
        if i and rng.random() < 0.25:
            parts.append(["fn", rng.choice(["up", "id", "lag"]), {"style": "agen"}, g.id("F")])
        else:
            parts.append(cmd(i == 0))
    node = g.pipe(parts)
    if rng.random() < 0.2:
        node = ["+", node, cmd(True)]
    if redirect:
        node = ["r", node, {"fd": "stdout", "to": "@D/out%d" % n, "flag": 0o1 | 0o100 | 0o2000, "mode": 0o666}]
    return node, [i for i in gated if "'nop:%s'" % i in repr(node)]


def silent(node):
    """Whether all of its output is written by processes"""
    if node[0] in ("r", "|"):
        return silent(node[1] if node[0] == "r" else node[2])
    if node[0] == "+":
        return silent(node[1]) and silent(node[2])
    return node[0] == "c"


def one(rng, tier):
    g = gen.Gen(rng)
    jobs = []
    for n in range(rng.choice([1, 1, 2, 3])):
        redirect = rng.random() < 0.8
        node, gated = job(g, rng, n, redirect)
        jobs.append({"node": node, "gated": gated, "left": list(gated), "redirect": redirect, "state": None, "stops": 0})
        rng.shuffle(jobs[-1]["left"])
    steps = []
    last = None
    nsteps = rng.choice([3, 6, 10, 15])
    ms = lambda: rng.choice([0, 1, 3, 10, 25])
    while True:
        n = rng.randrange(len(jobs))
        J_ = jobs[n]
        if all(x["state"] == "done" for x in jobs):
            break
        st = J_["state"]
        finish = len(steps) > nsteps
        k = rng.random()
        if st == "done":
            continue
        if st is None:
            if not J_["redirect"]:
                steps.append(["start", n, "&None"])
                J_["state"] = "run"
            elif k < 0.5:
                steps.append(["start", n, rng.choice(["run", "~", "&True", "&None"])])
                J_["state"] = "run"
            elif J_["left"]:
                steps.append(["fgstart", n, rng.choice(["+", "ri", "awaitp", "prompt"]), ms(), rng.choice([1, 1, 1, 2])])
                J_["state"] = "stop"
                J_["stops"] += 1
            last = n
            continue
        fg = ["wait", "await", "fgarg", "fgawait"] + (["fg", "fg", "fgprompt"] if last == n else [])
        if finish and rng.random() < 0.5:
            if J_["left"]:
                steps.append(["go", n, J_["left"]])
                J_["left"] = []
            how = rng.choice([x for x in fg if x != "fgprompt"])
            steps.append(["fg", n, how, None, 0])
            J_["state"] = "done"
            if how.startswith("fg"):
                last = None
            continue
        if k < 0.3 and J_["left"]:
            how = rng.choice(fg)
            steps.append(["fg", n, how, ms(), rng.choice([1, 1, 1, 2])])
            if how.startswith("fg"):
                last = n
            J_["state"] = "stop"
            J_["stops"] += 1
        elif k < 0.4 and J_["left"]:
            ws = [rng.choice(["wait", "await"]) for i in range(rng.choice([1, 2, 3]))]
            cancels = sorted(rng.sample(range(len(ws)), rng.choice([0, 1]))) if len(ws) > 1 else []
            steps.append(["waiters", n, ws, cancels, rng.choice([4, 10, 30])])
            J_["state"] = "stop"
            J_["stops"] += 1
        elif k < 0.5 and J_["left"]:
            steps.append(["suspend", n] + (["kill"] if rng.random() < 0.4 else []))
            J_["state"] = "stop"
            J_["stops"] += 1
        elif k < 0.7:
            steps.append(["cont", n, rng.choice(["restart", "bgarg", "bgrun"] + (["bg", "bgprompt"] if last == n else []))])
            J_["state"] = "run"
        elif k < 0.85 and J_["left"] and (len(J_["left"]) > 1 or J_["state"] == "stop"):
            m = rng.randrange(1, len(J_["left"]) + 1)
            if J_["state"] != "stop" and m == len(J_["left"]):
                m -= 1
            if len(J_["left"]) - m == 0:
                # It can end as soon as it is continued
                how = rng.choice([x for x in fg if x != "fgprompt"])
                steps.append(["go", n, J_["left"]])
                J_["left"] = []
                if rng.random() < 0.5:
                    steps.append(["sleep", rng.choice([0, 5, 20])])
                if rng.random() < 0.5:
                    # In the background
                    steps.append(["cont", n, "restart"])
                    steps.append(["sleep", rng.choice([0, 5, 40])])
                steps.append(["fg", n, how, None, 0])
                J_["state"] = "done"
                if how.startswith("fg"):
                    last = None
                continue
            steps.append(["go", n, J_["left"][:m]])
            J_["left"] = J_["left"][m:]
        else:
            steps.append(["sleep", rng.choice([0, 3, 12])])
    return {"scn": "jobs", "p": {"nodes": [x["node"] for x in jobs], "steps": steps,
                                 "silent": [silent(x["node"]) for x in jobs]}, "redirect": [x["redirect"] for x in jobs],
            "stops": [x["stops"] for x in jobs], "delays": {k: v for k, v in g.delays().items() if k in ("fork", "child", "short")}, "cfg": g.cfg(0.3)}


def cases(rng, tier):
    yield {"scn": "preexec", "p": {}, "delays": {"child": [1.0, 0.25, "exactly"]}, "cfg": {}}
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    if case["scn"] == "preexec":
        j.eq(obs["out"], "a\n", "output", "output of the pipeline that was not stopped")
        if obs["before"]:
            j.count("stopped before exec")
            j.check(obs["ended"], "stopped-before-exec", "a pipeline did not end, as a process stopped before it had become the program has what it reads from open")
        return
    for what, bad in obs["bad"]:
        j.fail("state", "after %s: %s; %s" % (what, bad, obs.get("jobs")))
    evs = [model.evaluate(node, None) for node in p["nodes"]]
    for st, e in zip(p["steps"], obs["steps"]):
        if st[0] in ("fg", "fgstart"):
            exc = e["exc"]
            if "prompt" in st[2]:
                j.eq(e.get("repr"), "", "repr", "repr in %s" % (st,))
                j.check(not exc, "suspended", lambda: "%s raised %s" % (st, exc))
                j.count("suspended waits")
                continue
            if exc:
                j.check(exc["str"], "str", lambda: "str() of the exception of %s: %s" % (st, exc.get("strfail")))
            if st[3] is not None:
                if j.check(exc and exc["type"] == "PipelineSuspended", "suspended", lambda: "%s: raised %s, not PipelineSuspended" % (st, exc and exc["type"])):
                    j.count("suspended waits")
                    if st[2] in ("wait", "await"):
                        j.check(e["same"], "suspended", "the pipeline of the exception of %s is another one" % st)
            else:
                fails = any(x.failed for x in evs[st[1]].parts)
                if fails:
                    j.check(exc and exc["type"] == "PipelineFailed", "ended", lambda: "%s: raised %s, not PipelineFailed" % (st, exc and exc["type"]))
                else:
                    j.check(not exc, "ended", lambda: "%s: raised %s: %s" % (st, exc["type"], exc["str"]))
        elif st[0] == "waiters":
            want = sorted(["cancelled"] * len(st[3]) + ["PipelineSuspended"] * (len(st[2]) - len(st[3])))
            j.eq(e["waiters"], want, "waiters", "what ended the tasks waiting in %s" % st)
            j.count("waiters", len(want))
    if j.problems:
        return
    for n, ev in enumerate(evs):
        J.check_parts(j, obs["rps"][str(n)], ev)
        if case["redirect"][n]:
            got = J.load(workdir, obs["out"][str(n)])
            err = model.check_out(got, ev.out)
            j.check(not err, "output", lambda: "output of job %d: %s" % (n, err))
            j.count("bytes compared", len(got))
        j.count("jobs compared")
        if case["stops"][n]:
            j.count("jobs ended after having been stopped")
    j.check(obs["stdout"] == "", "output", lambda: "written to standard out: %r" % obs["stdout"][:200])
    j.count("processes seen stopped", obs["seen"])
    j.eq(obs["running"], 0, "running", "pipelines still in running_pipelines")
    if obs["seen"]:
        j.nontrivial()
    J.check_conserved(j, res)
