"""C23: only the pipeline's own living processes are signalled"""
from .. import gen, model, judge as J
from .c15 import job

RULE = ("Random sessions with 1-3 jobs (pipelines, groups, arguments, functions) whose parts end only when told to, or are killed from outside, "
        "started in the foreground, which CTRL-C (SIGINT to the shell) ends in 7 ways, and in the background; stopped with suspend() and SIGTSTP, "
        "continued with restart() and bg, with processes ending just before, during and just after, and from callbacks called as one ends. Every "
        "kill() is compared with the log of forks and waits, and every process with the state it has to be in; at the end output and exit "
        "statuses are compared with the model; non-trivial if anything was signalled or interrupted, distinct by session")
QUICK = {"cases": 300, "budget": 24}
THOROUGH = {"cases": 30000, "budget": 400}
REQUIRED = {"interrupted": 200, "signals sent": 400, "signalled with processes that had ended": 40, "jobs compared": 200, "killed from outside": 30}
ASSUMPTIONS = ["The signals are sent to the shell alone, not from a terminal",
               "CTRL-C arrives while the shell waits for something to happen, not inside of a function of the user",
               "A process is stopped or continued within 5 seconds of the call"]


def one(rng, tier):
    g = gen.Gen(rng)
    interactive = rng.random() < 0.6
    jobs = []
    for n in range(rng.choice([1, 2, 2, 3])):
        node, gated = job(g, rng, n, True)
        jobs.append({"node": node, "gated": gated, "left": list(gated), "state": None, "died": False, "orphan": False, "cb": False})
        rng.shuffle(jobs[-1]["left"])
    steps = []
    nsteps = rng.choice([3, 6, 10, 15])
    ks = lambda: rng.choice([0, 0, 1, 2, 5])
    orphan = False      # A wait of the user's own goes on after CTRL-C
    while not all(x["state"] == "done" for x in jobs):
        n = rng.randrange(len(jobs))
        x = jobs[n]
        st = x["state"]
        if st == "done":
            continue
        finish = len(steps) > nsteps
        k = rng.random()
        if st is None:
            if k < 0.5:
                how = rng.choice(["+", "+", "ri", "iter", "bytes"] + (["prompt"] if interactive else []))
                steps.append(["fgint", n, how, ks()])
                x["state"] = "run"
            elif k < 0.6 and interactive and not orphan:
                steps.append(["ctrlz", n, "+", ks()])
                x["state"] = "stop"
            else:
                steps.append(["start", n, rng.random() < 0.5])
                x["state"] = "run"
                if rng.random() < 0.2:
                    # Before it has become the program
                    steps.append(["die", n, rng.randrange(8), rng.choice([2, 2, 15])])
                    x["died"] = True
            continue
        if finish and rng.random() < 0.6:
            if x["left"]:
                steps.append(["go", n, x["left"]])
                x["left"] = []
            steps.append(["wait", n])
            x["state"] = "done"
            continue
        if k < 0.14 and x["left"] and not x["died"]:
            # What one that waits for another gets is the other's
            how = rng.choice(["waitint", "fgargint"] if interactive else ["waitint"])
            steps.append([how, n, None, ks()])
            orphan = True
            x["state"] = "run"
        elif k < 0.24 and x["left"] and not x["died"] and interactive and not orphan:
            steps.append(["ctrlz", n, "wait", ks()])
            x["state"] = "stop"
        elif k < 0.44:
            how = rng.choice(["suspend", "restart", "bg"] if interactive else ["suspend", "restart"])
            steps.append(["suspend", n] if how == "suspend" else ["restart", n, how])
            if how == "suspend":
                x["state"] = "stop"
            else:
                x["state"] = "run"
        elif k < 0.8 and len(x["left"]) >= 1 and st == "run":
            # Some of the processes end, which the shell may have noticed or not
            m = rng.randrange(1, len(x["left"]) + 1)
            ids = x["left"][:m]
            x["left"] = x["left"][m:]
            steps.append(["go", n, ids])
            if rng.random() < 0.75:
                steps.append(["ended", n, ids, rng.choice([3, 10, 30])])
            if rng.random() < 0.3:
                steps.append(["spin", n, rng.choice([1, 2, 3, 5]), None, "now"])
            for i in range(rng.choice([1, 1, 2, 4])):
                if rng.random() < 0.6:
                    steps.append(["suspend", n, None, None, "now"])
                    x["state"] = "stop"
                else:
                    steps.append(["restart", n, "restart", None, "now"])
                    x["state"] = "run"
                if rng.random() < 0.3:
                    steps.append(["spin", n, rng.choice([1, 2, 3, 5]), None, "now"])
        elif k < 0.86 and x["left"]:
            steps.append(["die", n, rng.randrange(8), rng.choice([1, 2, 3, 9, 13, 14, 15, 10, 12])])
            x["died"] = True
            if rng.random() < 0.5:
                how = rng.choice(["suspend", "restart"])
                steps.append(["suspend", n, None, None, "now"] if how == "suspend" else ["restart", n, "restart", None, "now"])
                x["state"] = "stop" if how == "suspend" else "run"
            if rng.random() < 0.5:
                steps.append(["sleep", n, 2, None, "now"])
        elif k < 0.9 and finish and not x["cb"]:
            x["cb"] = True
            steps.append(["atend", n])
        else:
            steps.append(["sleep", n, rng.choice([0, 3, 12])])
    return {"scn": "signals", "p": {"nodes": [x["node"] for x in jobs], "steps": steps, "interactive": interactive},
            "died": [x["died"] for x in jobs], "cb": [x["cb"] for x in jobs],
            "delays": {k: v for k, v in g.delays().items() if k in ("fork", "child", "short", "wait")}, "cfg": g.cfg(0.3)}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    for what, bad in obs["bad"]:
        j.fail("signals", "%s: %s" % (what, bad))
    evs = [model.evaluate(node, None) for node in p["nodes"]]
    interrupted = 0
    for st, e in zip(p["steps"], obs["steps"]):
        if st[0] in ("fgint", "waitint", "fgargint"):
            key = "interrupt"
            if not j.check(e["sent"] == 1, key, lambda: "%s ended before CTRL-C: %s" % (st, e)):
                continue
            interrupted += 1
            how = st[0] if st[0] != "fgint" else st[2]
            if how == "prompt":
                j.check("exc" not in e, key, lambda: "%s raised %s" % (st, e))
            elif how in ("iter", "bytes", "waitint"):
                j.check(e.get("exc") in ("KeyboardInterrupt", "PipelineInterrupted"), key, lambda: "%s raised %s" % (st, e))
            else:
                if j.check(e.get("exc") == "PipelineInterrupted" and e.get("both"), key, lambda: "%s raised %s, not PipelineInterrupted" % (st, e)):
                    j.check(e.get("mine"), key, lambda: "%s: the pipeline of the exception is another one: %s" % (st, e))
            if "both" in e:
                j.check("str" in e, key, lambda: "%s: str() of the exception raised %s" % (st, e.get("strfail")))
            j.eq(e["listed"], e["running"], key, "in running_pipelines, after %s" % (st,))
            j.check(e["running"], key, lambda: "not running any longer after %s, though processes are" % (st,))
            j.check(e["alive"], key, lambda: "no process is running after %s" % (st,))
        elif st[0] == "ctrlz":
            j.check(e["sent"] == 1 and e.get("exc") == "PipelineSuspended" and e.get("mine"), "suspended", lambda: "%s: %s" % (st, e))
        elif st[0] == "wait":
            j.check(not e["running"] and not e["listed"], "ended", lambda: "running after %s: %s" % (st, e))
            if not case["died"][st[1]]:
                fails = any(x.failed for x in evs[st[1]].parts)
                j.eq(e.get("exc"), "PipelineFailed" if fails else None, "ended", "raised by %s" % (st,))
            if "exc" in e:
                j.check(e.get("mine"), "ended", lambda: "%s: the pipeline of the exception is another one" % (st,))
    j.count("interrupted", interrupted)
    j.count("signals sent", obs["kills"])
    j.count("signalled with processes that had ended", obs["kills_ended"])
    j.count("states compared", obs["states"])
    if j.problems:
        return
    for n, ev in enumerate(evs):
        if case["died"][n]:
            j.count("killed from outside")
            continue
        J.check_parts(j, obs["rps"][str(n)], ev)
        got = J.load(workdir, obs["out"][str(n)])
        err = model.check_out(got, ev.out)
        j.check(not err, "output", lambda: "output of job %d: %s" % (n, err))
        j.count("jobs compared")
    j.eq(obs["running"], 0, "running", "pipelines still in running_pipelines")
    if interrupted or obs["kills"]:
        j.nontrivial()
    J.check_conserved(j, res)
