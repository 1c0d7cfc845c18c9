"""C16: running never changes a pipeline, and runs are independent"""
import itertools

from .. import gen, model, judge as J

RULE = ("Random pools of pipelines that share parts (commands, redirects, lists, functions, arguments) as the same Python objects, each run 1-6 times in "
        "10 ways, up to 5 of them at the same time in tasks, with repr() in between; every run is compared with the model (output, parts, "
        "failures, number of processes started), repr() must start nothing and stay the same; in interactive environments evaluated at the prompt, "
        "some interrupted or suspended; non-trivial if some pipeline was run twice, distinct by the sequence of operations")
QUICK = {"cases": 260, "budget": 22}
THOROUGH = {"cases": 30000, "budget": 400}
REQUIRED = {"runs": 900, "runs at the same time": 300, "repeated runs": 400, "reprs": 150, "prompts": 40, "interrupted prompts": 20}
ASSUMPTIONS = ["Iterators that can only be iterated once are not run twice"]

REITER = ["list", "plainlist", "tuple", "iterable", "fgen", "fagen", "flist", "method", "fsleep"]


def one(rng, tier):
    g = gen.Gen(rng)
    lines = rng.random() < 0.5
    interactive = rng.random() < 0.35
    pool = []
    blocker = False

    def ref(node, name=[0]):
        name[0] += 1
        return ["ref", "x%d" % name[0], node]

    def source():
        k = rng.random()
        if k < 0.3 and not lines:
            kind = rng.choice(REITER)
            it = g.iterator(n=rng.choice([0, 1, 3, 20]), kinds=[kind], big=False)
            return it
        node = g.source(lines=lines)
        if lines:
            node = g.cmd(["gl:%s:%d:%d:%d" % (g.id("T"), rng.choice([0, 1, 3, 20, 100]), rng.choice([0, 30, 900]), rng.choice([0, 0, 200]))])
        return node

    def end():
        k = rng.random()
        if k < 0.15:
            return ["x:%d" % rng.randrange(1, 256)]
        if k < 0.2:
            return ["k:%d" % rng.choice([9, 15])]
        if k < 0.35:
            return ["e:%s" % g.text(5).replace("\n", "").encode("utf-8", "surrogateescape").hex()]
        return []

    def filter():
        k = rng.random()
        if k < 0.35 and not lines or k < 0.2:
            return g.function(ops=["up", "id", "dup", "odd", "lag"] if not lines else ["up", "id"], lines=lines)
        if k < 0.55 and pool:
            srcs = [x for x in pool if x[1] == "s" and len(model.evaluate(x[0]).out.parts) <= 1]
            if srcs:
                a = rng.choice(srcs)[0]
                if a[2][0] not in ("fn",) and not (a[2][0] == "it" and a[2][1] in ("fgen", "fagen", "flist", "method", "fsleep")):
                    return g.cmd(["lcat" if lines else "cat", "args", {"n": a}])
        node = g.filter(lines=lines)
        return ["c", node[1] + end(), node[2]]
    for i in range(rng.choice([2, 3, 4, 6])):
        srcs = [x[0] for x in pool if x[1] == "s"]
        k = rng.random()
        if not srcs or k < 0.3:
            n = source()
            if rng.random() < 0.3 and n[0] == "c":
                n = ["c", n[1] + end(), n[2]]
            t = "s"
        elif k < 0.55:
            n, t = filter(), "f"
        elif k < 0.8:
            fs = [x[0] for x in pool if x[1] == "f"]
            f = rng.choice(fs) if fs and rng.random() < 0.7 else filter()
            if "args" in str(f):      # The model can not tell how often it is written
                srcs = [x for x in srcs if len(model.evaluate(x).out.parts) <= 1] or [source()]
            n, t = ["|", rng.choice(srcs), f], "s"
        elif k < 0.92 and lines:
            # Arguments are not copied by line
            srcs = [x for x in srcs if "'args'" not in str(x)] or [source()]
            n, t = ["+", rng.choice(srcs), rng.choice(srcs)], "s"
        else:
            n, t = ["r", rng.choice(srcs), {"fd": "stderr", "to": "/dev/null", "form": "obj"}], "s"
        if t == "s" and n[0] == "it" and n[1] == "plainlist":
            n = ["it", "list", n[2], n[3]]
        pool.append([ref(n), t])
    if interactive:
        pool.append([["c", ["vh", "nop:" + g.id("C"), "gl:T%d:3:5:0" % g.n, "wait:@D/go", "gl:U%d:3:5:0" % g.n] + end(), {"style": 0}], "b"])
    nodes = [x[0] for x in pool if x[1] in "sb"]
    # Groups, as arguments and piped to each other, have no one output
    blocks = len(nodes) - 1 if interactive else None
    ops = []
    idx = [i for i in range(len(nodes)) if i != blocks]
    for k in range(rng.choice([2, 4, 6, 8])):
        x = rng.random()
        if x < 0.4:
            rs = []
            for j in range(rng.choice([1, 2, 3, 5])):
                rs.append([rng.choice(idx), rng.choice(["iterbytes", "raiter", "aiter", "file", "runfile"]), rng.choice([0, 0, 0, 1, 5])])
            ops.append(["par", rs])
        elif x < 0.7:
            ops.append(["sync", rng.choice(idx), rng.choice(["bytes", "list", "+file", "+"] + (["prompt"] * 4 if interactive else []))])
        elif x < 0.8 and interactive:
            ops.append(["sync", blocks, "promptint", rng.choice(["SIGINT", "SIGTSTP"]), rng.choice([1, 5, 20])])
        else:
            ops.append(["repr", rng.choice(idx), rng.choice(["repr", "list", "name", "format", "prompt", "env", "broken"])])
    return {"scn": "reruns", "p": {"nodes": nodes, "ops": ops, "interactive": interactive}, "blocks": blocks,
            "delays": g.delays(), "cfg": g.cfg(0.3)}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    obs = res["obs"]
    p = case["p"]
    J.observed(j, res)
    runs = {}
    for op, o in zip(p["ops"], obs["ops"]):
        forks = 0
        if op[0] == "repr":
            e = o["res"][0]
            i = op[1]
            j.check(e["same"], "repr", lambda: "repr (%s) of pipeline %d is %r, was %r" % (op[2], i, e["repr"][:500], obs["before"][i][:500]))
            if "broken" in e:
                j.check(all(isinstance(t, str) for t in e["broken"]), "repr", lambda: "repr() of what can't be printed: %s" % e["broken"])
            j.check(not e["out"], "repr", "repr (%s) wrote something" % op[2])
            j.count("reprs")
        else:
            if op[0] == "par":
                j.count("runs at the same time", len(op[1]) if len(op[1]) > 1 else 0)
            for e in o["res"]:
                i = e["p"]
                runs[i] = runs.get(i, 0) + 1
                j.count("runs")
                if runs[i] > 1:
                    j.count("repeated runs")
                ev = model.evaluate(p["nodes"][i], None)
                forks += sum(1 for x in ev.parts if x.kind == "c")
                one_run(case, j, e, ev, workdir, "run %d of pipeline %d (%s)" % (runs[i], i, e["mode"]), op)
        j.eq(o["forks"], forks, "processes", "processes started by %s" % (op,))
    for i, (a, b) in enumerate(zip(obs["before"], obs["after"])):
        j.check(a == b, "changed", lambda: "pipeline %d was %r and is now %r" % (i, a[:600], b[:600]))
    j.eq(obs["running"], 0, "running", "pipelines still in running_pipelines")
    if any(n > 1 for n in runs.values()):
        j.nontrivial()
    J.check_conserved(j, res)


def one_run(case, j, e, ev, workdir, what, op):
    exc = e.get("exc")
    failed = [x for x in ev.parts if x.failed]
    if e["mode"] == "promptint":
        j.check(not exc, "prompt", lambda: "%s, %s: raised %s" % (what, op, exc))
        j.eq(e.get("repr"), "", "prompt", "%s: repr" % what)
        j.check(e["after"], "prompt", "%s: not running after %s" % (what, op))
        j.count("interrupted prompts")
        j.eq(e.get("exc2"), "PipelineFailed" if failed else None, "failures", "%s: waiting afterwards raised" % what)
    else:
        if e["mode"] == "prompt":
            j.count("prompts")
            if not failed:
                j.eq(e.get("repr"), "", "prompt", "%s: repr" % what)
        if failed:
            j.check(exc and exc["type"] == "PipelineFailed", "failures", lambda: "%s: raised %s, not PipelineFailed" % (what, exc and exc["type"]))
        else:
            j.check(not exc, "failures", lambda: "%s: raised %s: %s" % (what, exc["type"], exc["str"]))
    if "rp" in e:
        ids = [x.id for x in ev.parts if not x.anon]
        J.check_parts(j, e["rp"], ev, content=len(set(ids)) == len(ids) and "stderr" not in repr(case["p"]["nodes"][e["p"]]))
    if "out" in e:
        got = J.load(workdir, e["out"])
        out = ev.out.map(J.as_lines) if e.get("lines") else ev.out
        err = model.check_out(got, out)
        j.check(not err, "output", lambda: "%s: %s" % (what, err))
        j.count("bytes compared", len(got))
