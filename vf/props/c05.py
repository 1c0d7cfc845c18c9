"""C05: failures are reported, completely and only when they happened"""
import re
from .. import gen, model, judge as J

RULE = ("Random pipelines of 1-5 parts, each of which may exit with a status of 0-255, die from a signal (also dumping core), or raise, "
        "before or after reading its input, with random standard err output; the exception, failed_processes, exit codes, exceptions and "
        "text compared with the model; non-trivial if some part failed or could have, distinct by description and way to run")
QUICK = {"cases": 700, "budget": 22}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"pipelines that failed": 100, "pipelines that did not fail": 50, "killed by signals": 10}
MODES = ["bytes", "str", "iter", "list", "aiter", "raiter", "iterbytes", "+", "~", "await", "run", "ri"]
SIGNALS = [1, 2, 3, 6, 8, 9, 10, 11, 12, 13, 14, 15, 24, 31]


def one(rng, tier):
    g = gen.Gen(rng)

    def ending(args):
        k = rng.random()
        if rng.random() < 0.4:
            args.append("e:" + g.text(rng.choice([0, 5, 30])).replace("\0", "").encode("utf-8").hex())
        if k < 0.45:
            pass
        elif k < 0.75:
            args.append("x:%d" % rng.choice([0, 1, 2, 3, 127, 128, 255, rng.randrange(256)]))
        elif k < 0.8:
            args.append("sl:%d" % rng.randrange(30))
            args.append("x:1")
        elif k < 0.85:
            args.append("ge:%d:%d:0:0" % (g.seed(), rng.choice([100, 5000, 70000])))
            args.append("x:%d" % rng.choice([0, 4]))
        else:
            args.append("k:%d%s" % (rng.choice(SIGNALS), rng.choice(["", "", ":1"])))
        return args

    def part(first):
        k = rng.random()
        if first:
            if k < 0.3:
                it = g.iterator(kinds=["gen", "iterator", "iterable", "fgen", "fagen", "fsleep", "method"], big=False)
                if rng.random() < 0.5:
                    it[2].insert(rng.randrange(len(it[2]) + 1), {"raise": rng.choice(["ValueError", "KeyError", "Raised", "ZeroDivisionError", "RuntimeError", "LookupError"])})
                return it
            args = g.hexw(g.text_bytes()) if k < 0.8 else ["gl:%s:%d:50:0" % (g.id("T"), rng.choice([10, 3000]))]
            if rng.random() < 0.1:
                it = ["it", "flist", [{"raise": "ValueError"}], g.id("I")]
                return it
            return g.cmd(ending(args))
        if k < 0.3:
            return g.function(ops=["raise", "raise", "up", "id", "take"])
        args = [rng.choice(["cat", "cat", "up", "drain"])] if rng.random() < 0.85 else []
        return g.cmd(ending(args))
    parts = [part(i == 0) for i in range(rng.choice([1, 1, 2, 2, 3, 4, 5]))]
    node = g.pipe(parts)
    if rng.random() < 0.1:
        node = ["+", node, part(True)]
        if node[2][0] == "c":
            node[2][1][2:] = ["x:%d" % rng.choice([0, 5])]
        elif not any("raise" in i for i in node[2][2]):
            node[2][2] = []
        mode = rng.choice(["+", "~", "await"])
        return {"scn": "pl", "p": {"node": node, "mode": mode}, "delays": g.delays(), "cfg": g.cfg(), "noout": 1}
    if rng.random() < 0.12:
        # A failing argument
        a = g.cmd(ending(["w:6869"]))
        node = ["|", node, g.cmd(ending(["cat", "args", {"n": a}]))]
        node[2][1] = [x for x in node[2][1]]
        # ending() was added after args, where it would be a file
        i = node[2][1].index("args")
        node[2][1] = node[2][1][:i] + ["args", {"n": a}]
    return {"scn": "pl", "p": {"node": node, "mode": rng.choice(MODES)}, "delays": g.delays(), "cfg": g.cfg()}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    ev = model.evaluate(p["node"], None)
    J.observed(j, res)
    e = J.check_failures(j, case, res, ev)
    if not case.get("noout"):
        J.check_output(j, case, res, ev, workdir)
    obs = res["obs"]
    rp = e["pipeline"] if e and "pipeline" in e else obs.get("rp")
    if rp:
        J.check_parts(j, rp, ev)
        anyfail = any(x.failed for x in ev.parts)
        if not any(x.may for x in ev.parts):
            j.eq(rp["failed"], anyfail, "failures", "is_failed of the pipeline")
        j.check(not rp["running"], "failures", "is_running after the end")
    if e and "pipeline" in e:
        j.count("pipelines that failed")
        j.check(not e.get("otherpipeline"), "failures", "the exception is about another pipeline")
        j.check(not e.get("strfail"), "text", "no text: %s" % e.get("strfail"))
        want = {x.id: x for x in ev.parts}
        if e["str"] is not None and len(e["str"]) < 19000:
            for x in e["pipeline"]["parts"]:
                if not x["infailed"]:
                    continue
                body = e["str"].split("\n\n", 1)[-1]
                name = "nop:%s" % x["id"] if x["kind"] == "c" else "vf_%s_" % x["id"]
                j.check(name in body, "text", lambda: "text does not name %s: %s" % (x["id"], e["str"][:800]))
                if x["kind"] == "c" and x["id"] in want and not want[x["id"]].may:
                    err = want[x["id"]].err.decode("utf-8", "replace")
                    j.check(err in e["str"], "text", lambda: "text does not have the standard err of %s: %s" % (x["id"], e["str"][:800]))
                elif x["kind"] == "fn" and x.get("exc"):
                    j.check(x["exc"] in e["str"], "text", lambda: "text does not have the exception of %s" % x["id"])
            j.count("texts compared")
    else:
        j.count("pipelines that did not fail")
    for x in ev.parts:
        if x.kind == "c" and x.failed:
            j.count("processes failed")
    j.count("killed by signals", sum(1 for x in str(p["node"]).split("'k:")[1:]))
    j.nontrivial([p["node"], p["mode"]])
