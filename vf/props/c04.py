"""C04: waiting ends exactly when every part of the pipeline has ended"""
from .. import gen, model, judge as J

RULE = ("Random pipelines (pipes, groups, arguments, functions) whose parts end only when the case's random schedule lets them - by exiting, "
        "from signals, killed, stopped and continued, returning or raising - with up to 5 waiting tasks of different kinds started at any "
        "point and some cancelled; at every step nothing may have been reported as ended early, and at the end of every wait everything "
        "really has; non-trivial if a wait was observed, distinct by description and schedule")
QUICK = {"cases": 640, "budget": 24, "batch": 16}
THOROUGH = {"cases": 60000, "budget": 400, "batch": 16}
REQUIRED = {"waits that ended": 200, "checks before the end": 500, "waits cancelled": 20}
ASSUMPTIONS = ["'always ends' is judged as: within 400 turns of the event loop (8 s) of every process having died"]


def one(rng, tier):
    g = gen.Gen(rng)
    gated = []
    procs = []

    def cmd(first=True, arg=False):
        id = g.id("C")
        args = []
        gate = rng.random() < 0.8
        if gate:
            gated.append(id)
            procs.append(id)
            args.append("pid:@D/pid_%s" % id)
        if not first and rng.random() < 0.15:
            args.append("drain")
        if gate:
            args.append("wait:@D/go_%s" % id)
        if rng.random() < 0.15:
            args.append("w:6869")
        elif rng.random() < 0.3:
            args += ["sl:%d" % rng.choice([1, 5, 20])]
        if not first and rng.random() < 0.4:
            args.append("drain")
        k = rng.random()
        if k < 0.5:
            pass
        elif k < 0.75:
            args.append("x:%d" % rng.randrange(256))
        else:
            args.append("k:%s" % rng.choice([1, 2, 6, 9, 15, 11, "3:1", "6:1", "11:1"]))
        if not arg and rng.random() < 0.12:
            # What it ends with goes before
            n = rng.random()
            a = node_fn() if n < 0.3 else cmd(True, True)
            end = []
            if args and args[-1][:2] in ("x:", "k:"):
                end = []
                args.pop()
            args += ["nop:", {"n": a}] if False else ["mix", "=x"]
            args += end
            if a[0] == "fn":
                args += ["out:6869", {"n": a}]
            else:
                args += ["in", {"n": a}]
        return g.cmd(args, id=id)

    def node_fn():
        id = g.id("F")
        gated.append(id)
        p = {"items": [{"s": "x"}] * rng.choice([0, 0, 0, 2]), "style": rng.choice(["agen", "ret", "class"])}
        if rng.random() < 0.4:
            p["exc"] = rng.choice(["ValueError", "KeyError", "Raised", "OSError", "RuntimeError"])
        if rng.random() < 0.4:
            p["read"] = 1
        return ["fn", "gate", p, id]

    parts = []
    n = rng.choice([1, 1, 2, 2, 3, 4, 6])
    for i in range(n):
        if rng.random() < 0.25:
            parts.append(node_fn())
        else:
            parts.append(cmd(i == 0))
    if parts[0][0] == "fn" and len(parts) > 1 and parts[1][0] == "fn":
        parts[0] = cmd(True)
        gated[:] = [i for i in gated if i in repr(parts)]
        procs[:] = [i for i in procs if i in repr(parts)]
    node = g.pipe(parts)
    if rng.random() < 0.2:
        node = ["+", node, cmd(True)]
    gated = [i for i in gated if ("'%s'" % i) in repr(node) or ("nop:%s'" % i) in repr(node)]
    procs = [i for i in procs if i in gated]

    kills = {}
    end = list(gated)
    rng.shuffle(end)
    top = rng.choice(["tasks", "tasks", "tasks", "tasks", "+", "bytes", "list", "ri", "await"])
    read = top == "tasks" and rng.random() < 0.3
    steps = []
    nw = 0
    waiters = {}
    cancelled = []
    stopped = []
    first_read = read
    while True:
        k = rng.random()
        if k < 0.3 and end:
            i = end.pop()
            if i in procs and rng.random() < 0.25:
                sig = rng.choice([9, 9, 15, 1])
                kills[i] = sig
                if i in stopped and sig != 9:
                    steps.append(["cont", i])
                    stopped.remove(i)
                steps.append(["kill", i, sig])
            else:
                steps.append(["go", i])
        elif k < 0.5 and nw < 5 and top == "tasks":
            kind = rng.choice(["wait", "wait", "await", "poll"])
            if first_read and rng.random() < 0.5:
                kind = rng.choice(["read", "readbytes"])
                first_read = False
            w = "w%d" % nw
            nw += 1
            waiters[w] = kind
            steps.append(["wait", w, kind])
        elif k < 0.58 and waiters:
            w = rng.choice(sorted(waiters))
            if w not in cancelled and not waiters[w].startswith("read"):
                cancelled.append(w)
                steps.append(["cancel", w])
        elif k < 0.7:
            steps.append(["yield", rng.choice([1, 2, 3, 10])])
        elif k < 0.78:
            steps.append(["sleep", rng.choice([0, 1, 5, 15])])
        elif k < 0.84 and end:
            i = rng.choice(end)
            if i in procs and i not in stopped:
                stopped.append(i)
                steps.append(["stop", i])
        elif k < 0.88 and stopped:
            i = stopped.pop()
            steps.append(["cont", i])
        elif not end and k > 0.9:
            break
    for i in stopped:
        steps.append(["cont", i])
    if read and first_read:
        # Someone has to read it, or it can't end
        steps.append(["wait", "w%d" % nw, rng.choice(["read", "readbytes"])])
    p = {"node": node, "top": top, "steps": steps, "gated": gated, "read": read}
    return {"scn": "sched", "p": p, "delays": {k: v for k, v in g.delays().items() if k != "smallpipe"}, "cfg": g.cfg(0.3), "kills": kills}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    ev = model.evaluate(p["node"], None)
    for x in ev.parts:
        if x.id in case["kills"]:
            x.code = case["kills"][x.id]
    if case["kills"]:
        for x in ev.parts:
            x.may = True    # Could have been writing to it
    J.observed(j, res)
    for e in obs["early"]:
        j.fail("early", e)
    if "unended" in obs or "nopid" in obs:
        j.fail("unended", "processes do not end: %s" % (obs.get("unended") or obs["nopid"]))
        return
    if obs.get("stuck"):
        j.fail("stuck", "everything has ended, but not waiting for it: %s; %s" % (obs["stuck"], obs.get("stuckrp") or obs["rp"]))
        return
    must = any(x.failed for x in ev.parts)
    may = any(x.may for x in ev.parts)
    cancelled = {s[1] for s in p["steps"] if s[0] == "cancel"}
    for name, w in obs["waiters"].items():
        if w["exc"] == "CancelledError":
            j.check(name in cancelled, "cancelled", "%s was cancelled, nobody cancelled it" % name)
            j.count("waits cancelled")
            continue
        j.count("waits that ended")
        j.check(not w["live"], "early", lambda: "%s ended, but processes %s (in order of start) are still there" % (name, w["live"]))
        j.check(not w["unfinished"], "early", lambda: "%s ended, but functions %s have not" % (name, w["unfinished"]))
        j.check(not w["is_running"] and not w["running"], "early", lambda: "%s ended, but is_running is %s, and %d processes are" % (
            name, w["is_running"], w["running"]))
        if w["exc"] not in (None, "PipelineFailed"):
            j.fail("failed", "%s raised %s" % (name, w["exc"]))
        elif must:
            j.check(w["exc"], "failed", "%s did not raise, but parts failed" % name)
        elif not may:
            j.check(not w["exc"], "failed", "%s raised, but nothing failed" % name)
    want = {s[1] for s in p["steps"] if s[0] == "wait"} | ({"late0", "late1"} if p["top"] == "tasks" else {"top"})
    j.eq(sorted(set(obs["waiters"]) - cancelled), sorted(want - cancelled), "ended", "the waits that ended")
    J.check_parts(j, obs["rp"], ev, content=False)
    for s in obs["states"]:
        j.eq(s, [False, 0, False, False], "after", "is_running, running_processes, any part running, in running_pipelines after the end")
    j.count("checks before the end", obs["checks"])
    if obs["waiters"]:
        j.nontrivial()
