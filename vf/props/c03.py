"""C03: pipelines, iterators and functions as arguments"""
from .. import gen, model, judge as J

RULE = ("Random commands with 1-6 arguments of which some are pipelines, iterators or functions, positional or named, nested up to depth 3, "
        "with 0-200000 bytes each, alone or within pipelines with standard in and err in use; output, function input, parts and standard "
        "err compared with the model; commands some of whose arguments wait for the end of file of functions before them; non-trivial if there was at least one such argument, distinct by description")
QUICK = {"cases": 600, "budget": 25}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"bytes compared": 50000, "argument pipes": 300, "waited for other arguments": 60}
MODES = ["bytes", "str", "list", "aiter", "iterbytes", "slowbytes", "+", "~", "await"]


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)
        self.args = 0

    def readable(self, depth):
        r = self.rng
        self.args += 1
        k = r.random()
        if k < 0.3:
            return self.iterator(kinds=["gen", "list", "tuple", "iterable", "iterator", "map", "list"])
        if k < 0.6 or depth == 0:
            parts = [self.source(text=True) if r.random() < 0.7 else self.iterator()]
            for i in range(r.choice([0, 0, 1, 2])):
                parts.append(self.filter(text=True) if r.random() < 0.7 else self.function())
            if parts[-1][0] != "c" and len(parts) == 1:
                parts.append(self.filter(text=True))
            return self.pipe(parts)
        return self.reader(depth - 1)

    def named(self, a):
        r = self.rng
        if r.random() < 0.2:
            return {"kw": {r.choice(["file", "in_put", "a"]): a}}
        return a

    def reader(self, depth, stdin=False):
        """A command reading its arguments"""
        r = self.rng
        args = ["cat"] if stdin and r.random() < 0.8 else []
        if r.random() < 0.3:
            args.append("e:" + self.text(10).encode().hex())
        args.append("args")
        n = r.choice([1, 1, 2, 3, 5])
        for i in range(n):
            if r.random() < 0.3:
                args.append("=plain" + str(r.randrange(100)))
            else:
                a = {"n": self.readable(depth)}
                if r.random() < 0.25:
                    kw = {r.choice(["file", "in_put", "a"]): a}
                    if r.random() < 0.3:
                        kw["other"] = {"n": self.readable(0)}
                    a = {"kw": kw}
                args.append(a)
        return self.cmd(args)

    def fn(self):
        r = self.rng
        self.args += 1
        f = self.function(ops=["sink", "lag", "id", "cnt", "num"])
        if f[1] != "sink":
            # What it yields goes to the standard out of the command
            f[1] = "sink"
        return f

    def tee(self, stdin):
        r = self.rng
        args = ["tee"]
        for i in range(r.choice([1, 1, 2, 4])):
            a = {"n": self.fn()}
            if r.random() < 0.2:
                a = {"kw": {r.choice(["to", "out_put"]): a}}
            args.append(a)
        return self.cmd(args)

    def mixed(self, depth, stdin):
        r = self.rng
        args = ["cat"] if stdin else []
        args.append("mix")
        for i in range(r.choice([1, 2, 3, 5])):
            k = r.random()
            if k < 0.2:
                args.append("=p%d" % i)
            elif k < 0.6:
                args += ["in", {"n": self.readable(depth)}]
            else:
                args += ["out:" + self.text_bytes(r.choice([0, 1, 3]))[:20000].hex(), {"n": self.fn()}]
        if not self.args:
            args += ["in", {"n": self.readable(0)}]
        return self.cmd(args)


def one(rng, tier):
    g = G(rng)
    parts = []
    if rng.random() < 0.5:
        parts.append(g.source(text=True))
    depth = rng.choice([0, 0, 1, 2])
    k = rng.random()
    if k < 0.5:
        parts.append(g.reader(depth, bool(parts)))
        if not parts[-1][1][2:] == []:
            pass
    elif k < 0.7:
        if not parts:
            parts.append(g.source(text=True))
        parts.append(g.tee(True))
    else:
        parts.append(g.mixed(depth, bool(parts)))
    if g.args == 0:
        parts.append(g.cmd(["cat", "args", {"n": g.readable(0)}]))
    for i in range(rng.choice([0, 0, 0, 1])):
        parts.append(g.filter(text=True))
    return {"scn": "pl", "p": {"node": g.pipe(parts), "mode": rng.choice(MODES)}, "delays": g.delays(), "cfg": g.cfg(),
            "nargs": g.args}


def waiting(rng):
    r = rng

    def lines():
        return ["%s%d" % (r.choice(["x", "", "line ", "y" * 1500]), i) for i in range(r.choice([0, 1, 3, 20]))]
    args = [["fn", "f0", lines()]]
    fns = ["f0"]
    for i in range(r.choice([1, 1, 2, 4])):
        k = r.choice(["fn", "process", "process", "pipe", "iterator", "plain"]) if i else r.choice(["process", "pipe", "iterator"])
        if k == "fn":
            fns.append("f%d" % len(fns))
            args.append([k, fns[-1], lines()])
        elif k == "plain":
            args.append([k, "p%d" % i])
        else:
            args.append([k, r.choice(fns)])
    if r.random() < 0.3:
        args.insert(0, ["plain", "first"])
    return {"scn": "ends", "p": {"args": args, "stdin": lines() if r.random() < 0.4 else None, "after": r.random() < 0.4}, "cfg": gen.Gen(rng).cfg(0.3)}


def cases(rng, tier):
    while True:
        yield waiting(rng) if rng.random() < 0.15 else one(rng, tier)


def judge_waiting(case, res, j):
    p = case["p"]
    J.observed(j, res)
    want = list(p["stdin"] or [])
    done = []
    for a in p["args"]:
        if a[0] == "fn":
            j.eq(res["obs"]["inputs"].get(a[1]), a[2], "input", "input of %s" % a[1])
        elif a[0] == "plain":
            want.append(a[1])
        else:
            done.append(a[1])
            j.count("waited for other arguments")
    j.eq(res["obs"]["done"], sorted(done), "parts", "arguments that have ended")
    j.eq(res["obs"]["output"], want + [""], "output", "output")
    J.check_conserved(j, res)
    j.nontrivial([p["args"]])


def judge(case, res, j, workdir):
    p = case["p"]
    if case["scn"] == "ends":
        judge_waiting(case, res, j)
        return
    ev = model.evaluate(p["node"], None)
    J.observed(j, res)
    e = J.check_failures(j, case, res, ev)
    J.check_output(j, case, res, ev, workdir)
    J.check_inputs(j, res, ev, workdir)
    rp = e["pipeline"] if e and "pipeline" in e else res["obs"].get("rp")
    if rp:
        J.check_parts(j, rp, ev)
        j.count("pipelines whose parts were compared")
    j.count("argument pipes", case["nargs"])
    j.nontrivial([p["node"], p["mode"]])
