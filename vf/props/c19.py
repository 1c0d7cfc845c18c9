"""C19: a subshell runs its pipeline in a process of its own, and nothing more"""
import json

from .. import gen, model, judge as J

RULE = ("Random pipelines with 1-3 subshells, nested too, first, in the middle and last, in groups, as arguments and redirected, of inner pipelines of "
        "commands, functions, iterators, groups, builtins and pipelines run by functions, which succeed, exit with a status, are killed, "
        "can not be started, raise an Exception or leave by SystemExit, KeyboardInterrupt and the like, in a shell with output pending in "
        "standard out, in a file and in files left to the garbage collector, and with another pipeline running which has to be able to end; with the functions "
        "changing directories, environments, variables, signal handlers and umask and collecting garbage. Output, input, exit statuses and error texts are "
        "compared with the model; all the functions and iterators of a subshell must have run in one process of its own, nothing of the shell in it, and the "
        "shell's state and files be as before; non-trivial if a part written in Python ran in a subshell, distinct by description")
QUICK = {"cases": 500, "budget": 24}
THOROUGH = {"cases": 30000, "budget": 400}
REQUIRED = {"subshells": 500, "failing subshells": 80, "subshells left by BaseExceptions": 20, "processes of subshells told apart": 120,
            "output pending in the shell": 80, "side effects": 80, "other pipelines ended meanwhile": 20, "changes of directory": 20}
MODES = ["bytes", "list", "iter", "aiter", "iterbytes", "+", "+", "await", "~", "run", "ri"]
EFFECTS = ["environ", "chdir", "umask", "variable", "exports", "cd", "gc", "file", "print", "signal"]
TIMEOUT = 60


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)
        self.died = False
        self.left = rng.choice([1, 1, 2, 3])
        self.dirs = []
        self.markers = {}
        self.effects = 0
        self.bg = None

    def stage(self, first, depth):
        """A part reading text lines, or producing them if first"""
        r = self.rng
        k = r.random()
        if first:
            if k < 0.5:
                return self.source(text=True)
            if k < 0.75:
                return self.iterator(kinds=["gen", "list", "iterable", "iterator", "fgen", "fagen", "flist"])
            return self.source(text=True)
        if k < 0.5:
            return self.filter(text=True)
        if k < 0.7:
            return self.function()
        if k < 0.85:
            self.effects += 1
            return ["fn", "effect", {"what": r.sample(EFFECTS, r.choice([1, 2, 4])), "style": r.choice(["agen", "ret", "class"])}, self.id("F")]
        if k < 0.93:
            return ["fn", "cmd", {"node": self.source(text=True)}, self.id("F")]
        return self.filter(text=True)

    def ending(self, depth):
        """Makes a pipeline fail in some way, reading all of its input"""
        r = self.rng
        k = r.random()
        if k < 0.3:
            return self.cmd(["cat", "e:" + self.text(12, False).encode().hex(), "x:%d" % r.choice([1, 2, 7, 128, 255])])
        if k < 0.4:
            return self.cmd(["cat", "k:%d" % r.choice([2, 9, 11, 15])])
        if k < 0.5:
            return ["c", [r.choice(["no_such_program", "@D"]), "nop:" + self.id("C")], {"nostart": r.choice([2]), "style": 0}]
        if k < 0.75:
            return self.function(["raise"])
        self.died = True
        return ["fn", "die", {"read": True, "exc": r.choice(["SystemExit", "SystemExit", "KeyboardInterrupt", "BaseRaised", "GeneratorExit"]),
                              "args": r.choice([[3], ["text"], [1], [300], [-1]])}, self.id("F")]

    def inner(self, first, depth):
        """A pipeline to be run in a subshell"""
        r = self.rng
        n = r.choice([1, 1, 2, 2, 3])
        parts = []
        for i in range(n):
            if depth and self.left > 0 and r.random() < 0.25:
                parts.append(self.sub(first and i == 0, depth - 1))
            else:
                parts.append(self.stage(first and i == 0, depth))
        k = r.random()
        if k < 0.3:
            e = self.ending(depth)
            if e[0] == "c" and "nostart" in e[2]:
                # Could write no further, what feeds it fails or not
                parts = [e] if first or r.random() < 0.3 else [e]
            else:
                parts.append(e)
        elif k < 0.4 and first:
            d = "d%d" % len(self.dirs)
            self.dirs.append(d)
            id = self.id("C")
            self.markers[id] = d + "/marker_" + id
            return ["+", ["b", "cd", ["@D/" + d]], ["c", ["vh", "nop:" + id, "ad:marker_%s:%s" % (id, id), "gl:%s:5:5" % id], {"style": 0}]]
        node = self.pipe(parts)
        if node[0] == "it":
            node = ["|", node, self.cmd(["cat"])]
        if node[0] == "fn" and node[1] != "die":
            node = ["|", self.source(text=True) if first else self.cmd(["cat"]), node]
        return node

    def sub(self, first, depth):
        r = self.rng
        self.left -= 1
        if r.random() < 0.04 and first:
            return ["sub", r.choice([None, "text", 5]), self.id("S")]
        node = ["sub", self.inner(first, depth), self.id("S")]
        if r.random() < 0.15:
            node = ["r", node, {"fd": "stderr", "to": {"special": "STRING"}}]
        return node


def one(rng, tier):
    g = G(rng)
    k = rng.random()
    p = {"mode": rng.choice(MODES)}
    if k < 0.12:
        # As an argument
        n = ["sub", g.inner(True, 1), g.id("S")]
        node = g.cmd(["args", {"n": n}])
    elif k < 0.2:
        tags = [g.id("T"), g.id("T")]
        a = ["sub", g.pipe([g.source(lines=True, tag=tags[0]), g.filter(lines=True)]), g.id("S")]
        b = g.source(lines=True, tag=tags[1]) if rng.random() < 0.5 else ["sub", g.source(lines=True, tag=tags[1]), g.id("S")]
        node = ["+", a, b] if rng.random() < 0.5 else ["+", b, a]
        if rng.random() < 0.5:
            node = ["|", node, g.cmd(["lcat"])]
    else:
        n = rng.choice([1, 1, 2, 2, 3, 4])
        at = rng.randrange(n)
        nodes = []
        stdin = rng.random() < 0.2
        if stdin:
            p["stdin"] = g.text_bytes().hex()
        for i in range(n):
            first = i == 0 and not stdin
            if i == at or (g.left > 0 and rng.random() < 0.3):
                nodes.append(g.sub(first, 1))
            elif i == 0 and first:
                nodes.append(g.source(text=True) if rng.random() < 0.5 else g.iterator(kinds=["gen", "list", "iterator", "fagen"]))
            else:
                nodes.append(g.filter(text=True) if rng.random() < 0.6 or i == 0 else g.function())
        if rng.random() < 0.12:
            # With another pipeline, that has to be able to end
            fn = ["fn", "gate", {"items": [g.item(big=False) for i in range(3)], "style": "agen"}, "G1"]
            p["bg"] = {"node": ["|", fn, ["c", ["vh", "nop:G2", "cat", "to:@D/bgout"], {"style": 0}]]}
            p["bg"] = {"node": ["r", ["|", fn, ["c", ["vh", "nop:G2", "cat"], {"style": 0}]], {"fd": "stdout", "to": "@D/bgout"}]}
            nodes.append(["sub", g.cmd(["pid:@D/subpid", "wait:@D/go_sub", "cat"]), g.id("S")])
        node = g.pipe(nodes)
    if rng.random() < 0.3:
        p["pending"] = "<<pending in the shell>>"
    if rng.random() < 0.25:
        p["garbage"] = rng.choice([1, 3, 8])
    p["node"] = node
    if g.dirs:
        p["dirs"] = g.dirs
    return {"scn": "sub", "p": p, "delays": g.delays(), "cfg": g.cfg(0.3), "died": g.died, "markers": {i: m for i, m in g.markers.items() if "nop:%s\"" % i in json.dumps(node)}, "effects": g.effects}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def flat(parts):
    for p in parts:
        yield p
        if hasattr(p, "inner"):
            for x in flat(p.inner.parts):
                yield x


def subs(node, path=()):
    """{path of subshells: [parts written in Python which certainly run in it]}"""
    res = {}

    def walk(n, path):
        if not isinstance(n, list):
            return
        k = n[0]
        if k == "sub":
            path = path + (n[2],)
            res.setdefault(path, [])
            walk(n[1], path)
        elif k in ("it", "fn"):
            res.setdefault(path, []).append(n[3])
        elif k == "c":
            for a in n[1]:
                if isinstance(a, dict) and "n" in a:
                    walk(a["n"], path)
        elif k in ("|", "+"):
            walk(n[1], path)
            walk(n[2], path)
        elif k == "r":
            walk(n[1], path)
    walk(node, path)
    return res


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    stdin = bytes.fromhex(p["stdin"]) if "stdin" in p else b""
    ev = model.evaluate(p["node"], stdin)
    allparts = list(flat(ev.parts))
    all_subs = [x for x in allparts if hasattr(x, "inner")]
    died = any(getattr(x, "died", False) for x in allparts)
    j.count("subshells", len(all_subs))
    j.count("failing subshells", sum(x.failed for x in all_subs))
    unsure = died or any(getattr(x, "unsure", False) for x in allparts)
    if died:
        j.count("subshells left by BaseExceptions")

    # Processes
    where = subs(p["node"])
    pids = {}
    for path, id, pid in obs["subpids"]:
        path = tuple(path.split("."))
        j.check(id in where.get(path, ()), "process", lambda: "%s ran in %s" % (id, path))
        pids.setdefault(path, set()).add(int(pid))
    seen = {obs["main"]: "the shell"}
    for path, ps in sorted(pids.items()):
        j.check(len(ps) == 1, "process", lambda: "the parts of subshell %s ran in %d processes" % (path, len(ps)))
        for x in ps:
            j.check(x not in seen, "process", lambda: "a part of subshell %s ran in the process of %s" % (path, seen[x]))
            seen[x] = path
            j.count("processes of subshells told apart")
    for path, ids in where.items():
        if path:
            for i in ids:
                for kind in ("got", "wrote"):
                    j.check(not obs[kind].get(i), "process", "a part of a subshell ran in the shell: %s" % i)
    if pids:
        j.nontrivial()
    j.check(not res.get("leaked"), "process", "a subshell came back into the shell's code: %s" % res.get("leaked"))

    # The shell
    j.check(not obs["changed"], "shell changed", "changed in the shell: %s" % obs["changed"])
    j.count("side effects", case["effects"])
    j.eq(obs["pendfile"], "pending\nafter\n", "pending", "content of the file with pending output")
    for g in obs.get("garbage", ()):
        j.eq(g, "garbage\n", "pending", "content of a file left to the garbage collector")
        j.count("files left to the garbage collector")
    data = J.load(workdir, obs["stdout"])
    if "pending" in p:
        text = p["pending"].encode()
        j.eq(data.count(text), 1, "pending", "times output pending in the shell was written")
        j.count("output pending in the shell")
        if p["mode"] in ("+", "await", "~", "run", "ri"):
            rest = J.load(workdir, obs["out"]).replace(text, b"")
            with open(workdir + "/rest_out", "wb") as f:
                f.write(rest)
            obs["out"] = "rest_out"
    if "bg" in p:
        j.check(not obs["bg"]["late"], "other pipelines", "a pipeline could not end while the subshell was running")
        if not obs["bg"]["late"]:
            bgev = model.evaluate(p["bg"]["node"], b"")
            err = model.check_out(J.load(workdir, obs["bg"]["out"]), bgev.out)
            j.check(not err, "other pipelines", "output of the other pipeline: %s" % err)
            j.check(not obs["bg"]["rp"]["failed"], "other pipelines", "the other pipeline failed: %s" % obs["bg"]["rp"])
            j.count("other pipelines ended meanwhile")
    for id, path in case["markers"].items():
        if not died:
            j.eq((obs["markers"].get(path) or "").strip(), id, "directory", "what was written in %s" % path)
            j.count("changes of directory")

    # What it did
    if not unsure:
        J.check_output(j, case, res, ev, workdir)
    J.check_failures(j, case, res, ev)
    rp = obs.get("rp") or (obs.get("exc") or {}).get("pipeline")
    if rp:
        byid = {x["id"]: x for x in rp["parts"]}
        want = {x.id: x for x in ev.parts if not x.anon}
        if j.check(sorted(map(str, byid)) == sorted(str(None if x.anon else x.id) for x in ev.parts), "parts", lambda: (
                "parts are %s, expected %s" % (sorted(map(str, byid)), sorted(map(str, want))))):
            for id, w in want.items():
                x = byid[id]
                j.check(not x["running"], "parts", "%s is still running" % id)
                if x["running"]:
                    continue
                if hasattr(w, "inner"):
                    if w.failed:
                        j.check(x["failed"] and x["code"] != 0, "parts", "the subshell %s has not failed, its pipeline has" % id)
                        text = x["content"].get("2")
                        if isinstance(text, str) and w.sharing is None and not w.may and not died:
                            j.check(text, "error text", "the subshell %s failed and its standard err is empty" % id)
                            for i in w.inner.parts:
                                if i.kind == "c" and i.failed and i.sharing is None and i.started and not hasattr(i, "inner"):
                                    j.check(i.err.decode() in text, "error text", lambda: (
                                        "standard err of the subshell %s is %r, but its %s wrote %r" % (id, text, i.id, i.err)))
                                    j.count("error texts found")
                    elif not w.may:
                        j.check(not x["failed"] and x["code"] == 0, "parts", lambda: (
                            "the subshell %s failed, its pipeline can't: %s" % (id, x["content"])))
                        if w.sharing is None and isinstance(x["content"].get("2"), str):
                            j.eq(x["content"]["2"], "", "parts", "standard err of the subshell %s" % id)
                elif not w.may and not died:
                    j.check(x["failed"] == w.failed, "parts", "%s: failed is %s" % (id, x["failed"]))
    if not unsure:
        J.check_inputs(j, res, ev, workdir)
    # What is still running when a subshell is over leaves its files
    unfinished = died or ('"cmd"' in json.dumps(p["node"]) and any(x.failed or x.may for x in allparts))
    J.check_conserved(j, res, tmp=not unfinished)
