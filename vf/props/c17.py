"""C17: running pipelines and their parts are listed and found by name"""
import re

from .. import gen, judge as J

RULE = ("Random histories with 1-6 pipelines (pipes, groups, arguments, functions, lists, equal and unequal names) in 1-3 environments, whose parts "
        "end, fail, are killed only when told to, started in 9 ways, with builtins, new environments and waits in between; after every step "
        "running_pipelines and last_pipeline are compared with what was run at once (nothing missing, nothing foreign) and exactly once it settled, "
        "and processes, running_processes and failed_processes, and attributes by name with the parts told apart by their argument; and pipelines with the very same command several times; non-trivial if there was something "
        "running while something else was not, distinct by history")
QUICK = {"cases": 400, "budget": 22}
THOROUGH = {"cases": 30000, "budget": 400}
REQUIRED = {"looks": 1500, "parts found by name": 3000, "sub-levels": 500, "pipelines seen listed": 1500, "failed parts seen": 500, "same commands found": 150}
ASSUMPTIONS = ["Programs are not called like an attribute all running pipelines have",
               "Ends are noticed within 10 seconds"]
PROGRAMS = ["alpha", "beta", "gamma", "delta", "vh-x", "vh.y", "9lives", "0ad", "@V", "vh"]


def slug(name):
    name = re.sub(r"[^a-z0-9]+", "_", name.replace("@V", "vh").split("/")[-1].lower()).strip("_")
    return "n" + name if name[0].isdigit() else name


def tail(node):
    """The parts that have standard out of the whole open"""
    if node[0] == "r":
        return tail(node[1])
    if node[0] == "|":
        return tail(node[2])
    if node[0] == "+":
        return tail(node[1]) + tail(node[2])
    if node[0] == "c":
        return [a[4:] for a in node[1] if isinstance(a, str) and a.startswith("nop:")]
    return [node[3]]


class Pipeline(object):
    def __init__(self, g, rng, n, gates, programs):
        self.g, self.rng, self.n = g, rng, n
        self.gates = gates
        self.programs = programs
        self.parts = {}
        self.names = {}
        self.node = self.pipeline(0)

    def part(self, id, gate, fails, deps=(), name=None):
        self.parts[id] = {"n": str(self.n), "gate": gate, "fails": fails, "deps": list(deps)}
        if name:
            self.names.setdefault(slug(name), []).append(id)
        return id

    def command(self, depth):
        rng = self.rng
        id = self.g.id("C")
        name = rng.choice(self.programs)
        gate = self.gates and rng.random() < 0.8
        args = [name]
        style = 0
        if re.match("^[a-z]*$", name) and rng.random() < 0.7:
            style = rng.choice([1, 2, 3])
        for i in range(rng.choice([0, 0, 1, 2])):
            args.append("ign")
        args.append("nop:" + id)
        if gate:
            args.append("wait:@D/go_" + id)
        deps = []
        fails = False
        if depth < 2 and rng.random() < 0.3:
            k = rng.random()
            if k < 0.3:
                f, i = self.iterator()
                args += ["args", {"n": f}]
                deps.append(i)
            elif k < 0.6:
                i = self.g.id("F")
                self.part(i, False, False, [id], "vf_%s_" % i)
                args += ["mix", "out:61", {"n": ["fn", "sink", {}, i]}]
            else:
                node = self.pipeline(depth + 1) if rng.random() < 0.5 else self.command(depth + 1)
                args += ["args", {"n": node}]
                deps += tail(node)
        else:
            k = rng.random()
            if k < 0.35:
                args.append("x:%d" % rng.randrange(1, 256))
                fails = True
            elif k < 0.5:
                args.append("k:%d" % rng.choice([2, 15, 9]))
                fails = True
        self.part(id, gate, fails, deps, name)
        node = ["c", args, {"style": style}]
        if rng.random() < 0.15:
            node = ["r", node, {"fd": "stderr", "to": rng.choice([{"special": "STRING"}, "/dev/null"])}]
        return node

    def function(self):
        rng = self.rng
        id = self.g.id("F")
        params = {"items": []}
        if rng.random() < 0.5:
            params["exc"] = rng.choice(["ValueError", "KeyError"])
        if rng.random() < 0.5:
            params["name"] = rng.choice(["work", "alpha", "Beta", "vf_x"])
        self.part(id, True, "exc" in params, (), params.get("name", "vf_%s_" % id))
        return ["fn", "gate", params, id]

    def iterator(self):
        id = self.g.id("I")
        items = []
        bad = self.rng.random() < 0.3
        if bad:
            items = items + [{"raise": "ValueError"}]
        self.part(id, False, bad)
        return ["it", self.rng.choice(["gen", "list"]) if not bad else "gen", items, id], id

    def pipeline(self, depth):
        rng = self.rng
        nodes = []
        for i in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if i == 0 and k < 0.15:
                nodes.append(self.iterator()[0])
            elif k < 0.3 and self.gates and (depth == 0 or i):
                # A function alone would be written to, as an argument
                nodes.append(self.function())
            elif k < 0.4 and depth < 2:
                nodes.append(["+", self.command(depth + 1), self.command(depth + 1)])
            else:
                nodes.append(self.command(depth))
        if nodes[-1][0] == "it":
            nodes.append(self.command(depth))
        return self.g.pipe(nodes)


def one(rng, tier):
    g = gen.Gen(rng)
    programs = rng.sample(PROGRAMS, rng.choice([1, 2, 4]))
    left = list(range(rng.choice([1, 2, 3, 4, 6])))
    nodes, parts, names = [], {}, {}
    steps = []
    nenvs = 1
    gates = {}
    where = {}
    live = []
    started = []
    last = {}
    interactive = rng.random() < 0.4
    nsteps = rng.choice([4, 8, 14])
    while left or (live and len(steps) < nsteps + 6):
        k = rng.random()
        quick = ["quick"] if rng.random() < 0.25 else [None]
        if left and (k < 0.35 or not live):
            n = left.pop(0)
            e = rng.randrange(nenvs)
            p = Pipeline(g, rng, n, rng.random() < 0.8, programs)
            nodes.append(p.node)
            parts.update(p.parts)
            names[str(n)] = p.names
            gated = [i for i in p.parts if p.parts[i]["gate"]]
            how = ["run", "~", "&", "pipe", "aiter"]
            if not gated:
                how += ["+", "ri", "list", "bytes", "prompt" if interactive else "+"] * 2
            steps.append(["start", str(n), e, rng.choice(how)] + quick)
            started.append(str(n))
            where[str(n)] = e
            last[e] = str(n)
            gates[n] = gated
            if gated:
                live.append(n)
                rng.shuffle(gated)
        elif k < 0.42 and nenvs < 3:
            steps.append(["derive", rng.randrange(nenvs)] + quick)
            nenvs += 1
        elif k < 0.55:
            e = rng.randrange(nenvs)
            how = rng.choice(["cd", "clear", "bg", "bgarg"])
            if how == "bg" and e not in last or not started:
                how = "cd"
            steps.append(["builtin", e, how, rng.choice(started or [None]), rng.choice(["+", "run", "prompt"])] + quick)
        elif k < 0.65 and started:
            steps.append(["wait", rng.choice(started), rng.choice(["wait", "await"])] + quick)
        elif k < 0.75:
            steps.append(["yield", rng.choice([1, 2, 5])] + quick)
        elif live:
            n = rng.choice(live)
            i = gates[n].pop()
            if rng.random() < 0.2 and parts[i]["n"] == str(n) and i[0] == "C" and not parts[i]["deps"] and not any(
                    i in parts[x]["deps"] and parts[x]["gate"] is False for x in parts):
                steps.append(["kill", i] + quick)
            else:
                m = [i]
                while gates[n] and rng.random() < 0.4:
                    m.append(gates[n].pop())
                steps.append(["go", m] + quick)
            if not gates[n]:
                live.remove(n)
    return {"scn": "listing", "p": {"nodes": {str(i): n for i, n in enumerate(nodes)}, "parts": parts, "names": names, "steps": steps,
                                    "interactive": interactive},
            "delays": g.delays(), "cfg": g.cfg(0.3)}


def twins(rng):
    """Pipelines with the same commands several times"""
    g = gen.Gen(rng)
    names = {}
    fails = [0]
    pool = []
    for i in range(rng.choice([1, 1, 2])):
        name = rng.choice(PROGRAMS)
        args = [name] + ["ign"] * rng.choice([0, 1]) + ["wait:@D/go"] + rng.choice([[], [], ["x:3"]])
        pool.append((name, args))

    def command():
        name, args = rng.choice(pool)
        names[slug(name)] = names.get(slug(name), 0) + 1
        fails[0] += args[-1] == "x:3"
        return ["c", list(args), {"style": 0}]

    def pipeline(depth):
        nodes = []
        for i in range(rng.choice([1, 2, 2, 3])):
            k = rng.random()
            if k < 0.2 and depth < 2:
                nodes.append(["+", pipeline(depth + 1), pipeline(depth + 1)])
            else:
                nodes.append(command())
        return g.pipe(nodes)
    node = pipeline(0)
    return {"scn": "twins", "p": {"node": node, "names": names, "fails": fails[0]}, "delays": g.delays(), "cfg": g.cfg(0.3)}


def cases(rng, tier):
    while True:
        yield twins(rng) if rng.random() < 0.15 else one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    if case["scn"] == "twins":
        for what, bad in obs["bad"]:
            j.fail("twins", "%s: %s, in %s" % (what, bad, p["node"]))
        j.eq(obs["end"], [0, p["fails"], p["fails"]], "twins", "numbers of running, failed, and failed processes")
        j.count("same commands found", obs["leaves"])
        j.count("sub-levels", obs["groups"])
        if obs["leaves"] > 1:
            j.nontrivial()
        J.check_conserved(j, res)
        return
    for what, bad in obs["bad"]:
        j.fail("listed", "after %s: %s; steps %s" % (what, bad, p["steps"]))
    if obs["bad"]:
        return
    j.eq(obs["unended"], 0, "waiting", "tasks still waiting")
    for n, exc, there in obs["waited"]:
        fails = any(x["fails"] for x in p["parts"].values() if x["n"] == n) or any(
            s[0] == "kill" and p["parts"][s[1]]["n"] == n for s in p["steps"])
        j.eq(exc, "PipelineFailed" if fails else None, "waiting", "what waiting for %s raised" % n)
        j.check(not there, "listed", "pipeline %s was waited for, and is in running_pipelines" % n)
    j.count("looks", obs["looks"])
    j.count("parts found by name", obs["found"])
    j.count("sub-levels", obs["groups"])
    j.count("pipelines seen listed", obs["listed"])
    j.count("running parts seen", obs["running seen"])
    j.count("failed parts seen", obs["failed seen"])
    j.count("waits", len(obs["waited"]))
    if obs["listed"] and obs["failed seen"]:
        j.nontrivial()
    J.check_conserved(j, res)
