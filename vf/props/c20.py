"""C20: a pickled pipeline runs the same anywhere"""
import json
import os
import re

from .. import gen, model, judge as J

RULE = ("Random pipelines of commands with arbitrary arguments (R(), named parameters, values, nested pipelines, lists), redirects of all kinds, pipes, groups, "
        "lists, subshells, cd and importable functions in environments with directories, variables and default redirects of their own, pickled with all "
        "protocols before, while and after they or others run, 1-3 times over, then run in the same process, by pieshell --pcmd in another process with another "
        "directory and environment, and by remote() through an ssh doing the same; arguments, directory, variables and descriptors commands saw, output, "
        "files written, exit statuses and captured errors are compared with those of the original, and output with the model; "
        "non-trivial if something the copy did was compared, distinct by description and way")
QUICK = {"cases": 330, "budget": 60}
THOROUGH = {"cases": 30000, "budget": 400}
REQUIRED = {"copies run": 250, "run in another process": 40, "run by remote": 30, "command environments compared": 120, "files compared": 40, "failures compared": 20}
ASSUMPTIONS = ["Functions in pipelines can be imported by the same name where they are unpickled"]
MODES = ["bytes", "list", "iter", "aiter", "iterbytes", "+", "+", "await", "~", "run", "ri"]
VARS = ["AA", "b_b", "LANG2", "X", "PATH2", "\u00e5", "dumper", "vh"]


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)
        self.modelled = True
        self.out = []
        self.lines = rng.random() < 0.2
        self.envs = []
        for i in range(rng.choice([1, 1, 2, 3])):
            e = {"name": "E%d" % i, "cwd": rng.choice(["d0", "d 1", "d2", "d2/\u00e5"]),
                 "exports": {rng.choice(VARS): self.string().replace("\0", "") for k in range(rng.choice([0, 1, 3]))}}
            if rng.random() < 0.25:
                e["exports"] = "same"       # as the process has
            self.envs.append(e)
        self.cd = False

    def string(self):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return ""
        if k < 0.5:
            return self.text(r.randrange(0, 20)).replace("\0", "").replace("\udc80", "")
        if k < 0.6:
            return r.choice(["a b", "\n", "--x", "-x=1", "'", '"', "\\", "$HOME", "`id`", ";", "|", "$(id)", "%", "%s", "@D", "[", "*", "?", "~", "[a-", "(", "\r\n"])
        if k < 0.7:
            return bytes(r.randrange(1, 256) for i in range(r.randrange(1, 12))).decode("utf-8", "surrogateescape")
        if k < 0.72:
            return r.choice("xy\u20ac") * r.choice([1000, 4096, 20000])
        return r.choice(["foo", "bar", "x", "a_b", "cd"])

    def opts(self, style=None):
        r = self.rng
        return {"env": r.choice(self.envs)["name"], "style": r.choice([0, 0, 1, 2]) if style is None else style}

    def dumper(self):
        r = self.rng
        self.modelled = False
        args = [r.choice(["dumper", "dumper2"])]
        # Of the process id regular expression, see ctx
        args.append("nop:" + self.id("C"))
        for i in range(r.choice([0, 1, 2, 4])):
            k = r.random()
            if k < 0.5:
                args.append({"R": self.string()})
            elif k < 0.7:
                s = self.string()
                if any(c in s for c in "*?[") or s.startswith("~"):
                    args.append({"R": s})
                else:
                    args.append(s.replace("%", "%%"))
            elif k < 0.8:
                args.append(r.choice(["*", "d*", "~", "in%(X)s", "[d]2", "nothing*", "~/x"]).replace("in%(X)s", "in%%"))
            else:
                args.append({"kw": {r.choice(["a", "b_c", "--"]): r.choice([True, False, {"R": self.string()}, "x"]) for i in range(2)}})
        return ["c", args, self.opts(r.choice([0, 1, 2]))]

    def list(self):
        r = self.rng
        its = []
        for i in range(r.choice([0, 1, 2, 5])):
            its.append(self.item(big=False))
            if "obj" in its[-1]:
                its[-1] = {"i": 5}
        return ["it", r.choice(["plainlist", "plainlist", "tuple"]), its, self.id("I")]

    def vcmd(self, c):
        c[2].update(self.opts(c[2].get("style")))
        return c

    def command(self, first, depth=1):
        r = self.rng
        k = r.random()
        if first:
            if k < 0.35:
                return self.dumper()
            if k < 0.55:
                return self.vcmd(self.source(lines=self.lines, text=True))
            if k < 0.65 and depth:
                return self.vcmd(self.cmd(["args", {"n": self.pipeline(True, depth - 1) if r.random() < 0.5 else self.list()}]))
            if k < 0.75:
                self.modelled = False
                return ["r", self.vcmd(self.cmd(["cat"])), {"fd": "stdin", "to": "@D/input", "form": r.choice(["<", "ror", "obj"])}]
            return self.vcmd(self.source(text=True))
        return self.vcmd(self.filter(text=True))

    def stage(self, first, depth):
        r = self.rng
        c = self.command(first, depth)
        if r.random() < 0.2:
            c = self.ending(c)
        if r.random() < 0.25:
            c = self.redirect(c)
        return c

    def ending(self, c):
        if c[0] == "c" and c[1][0] == "vh" and "args" not in c[1]:
            e = self.rng.choice(["x:3", "x:1", "k:9"])
            c[1] += ["e:" + self.text(8, False).encode().hex(), e]
        return c

    def redirect(self, c):
        r = self.rng
        k = r.random()
        if k < 0.4:
            name = "out%d" % len(self.out)
            path = "@D/" + name
            self.out.append(name)
            form = r.choice([">", "|", "obj"])
            t = r.choice([path, path, {"bytes": path}, {"path": path}, {"pure": path}]) if form == "|" else path
            self.modelled = False
            res = ["r", c, {"fd": "stdout", "to": t, "form": form}]
            if form == "obj" and r.random() < 0.5:
                res[2]["flag"] = os.O_WRONLY | os.O_CREAT | r.choice([os.O_APPEND, os.O_TRUNC])
                res[2]["mode"] = 0o600
            return res
        if k < 0.55:
            name = "out%d" % len(self.out)
            self.out.append(name)
            return ["r", c, {"fd": r.choice([5, 7, 9]), "to": "@D/" + name, "flag": os.O_WRONLY | os.O_CREAT}]
        if k < 0.75:
            return ["r", c, {"fd": "stderr", "to": {"special": "STRING"}}]
        if k < 0.85:
            name = "out%d" % len(self.out)
            self.out.append(name)
            self.modelled = False
            return ["r", c, {"fd": "stderr", "to": "@D/" + name, "form": "obj"}]
        return c

    def pipeline(self, first, depth):
        r = self.rng
        k = r.random()
        if k < 0.12 and first:
            if self.lines:
                a, b = self.vcmd(self.source(lines=True)), self.vcmd(self.source(lines=True))
            else:
                a, b = self.dumper(), self.dumper()
            return ["+", a, b]
        if k < 0.18 and first:
            self.modelled = False
            self.cd = True
            d = self.dumper()
            e = [x for x in self.envs if x["name"] == d[2]["env"]][0]
            return ["+", ["b", "cd", ["@D/" + r.choice(["d2", "d 1"])], e["name"]], d]
        parts = []
        for i in range(r.choice([1, 1, 2, 3])):
            f = first and i == 0
            k = r.random()
            if f and k < 0.15:
                parts.append(self.list())
            elif f and k < 0.2 and self.nostdin:
                self.modelled = False
                parts.append(["fn", "named", {"name": "items"}, self.id("F")])
            elif not f and k < 0.15:
                self.modelled = False
                parts.append(["fn", "named", {"name": r.choice(["upper", "number", "bad", "instead"])}, self.id("F")])
            elif k < 0.25 and depth:
                parts.append(["sub", self.pipeline(f, depth - 1), self.id("S")])
            else:
                parts.append(self.stage(f, depth))
        node = self.pipe(parts)
        if node[0] == "it" or node[0] == "fn" and node[2]["name"] == "items":
            node = ["|", node, self.vcmd(self.cmd(["cat"]))]
        elif node[0] == "fn":
            node = ["|", self.vcmd(self.cmd(["cat"])), node]
        return node


def quiet(node):
    """What commands print of themselves differs from run to run: no filters that hide how"""
    if isinstance(node, dict):
        return {k: quiet(v) for k, v in node.items()}
    if not isinstance(node, list):
        return node
    if node[:1] == ["fn"]:
        return node if node[2]["name"] in ("bad", "items") else ["c", ["vh", "nop:C" + node[3], "cat"]]
    if node[:1] == ["c"] and node[1][0] == "vh" and any(isinstance(a, str) and a.split(":")[0] in FILTERS for a in node[1]):
        # In the same place, to be over before it ends
        res = []
        for a in node[1]:
            if isinstance(a, str) and a.split(":")[0] in FILTERS:
                a = "cat"
                if a in res:
                    continue
            res.append(a)
        return ["c", res] + node[2:]
    return [quiet(x) for x in node]


FILTERS = ["up", "xor", "rev", "pre", "lcat", "lup", "cnt", "head", "drain", "tee", "mix", "cat"]


def one(rng, tier):
    g = G(rng)
    stdin = rng.random() < 0.2
    g.nostdin = not stdin
    node = g.pipeline(not stdin, 1)
    if "dumper" in json.dumps(node) or '"+"' in json.dumps(node):
        node = quiet(node)
    where = rng.choice(["same", "same", "same", "cmd", "remote"])
    if stdin:
        where = rng.choice(["same", "cmd"])
    for e in g.envs:
        if rng.random() < 0.1:
            name = "out%d" % len(g.out)
            g.out.append(name)
            e["redirect"] = {"fd": 6, "to": "@D/" + name, "flag": os.O_WRONLY | os.O_CREAT}
    p = {"node": node, "envs": g.envs, "hops": rng.choice([1, 1, 2, 3]), "when": rng.choice(["new", "new", "ran", "running", "other running"]),
         "where": where, "mode": rng.choice(MODES), "out": g.out, "dirs": ["d0", "d 1", "d2", "d2/\u00e5"], "protocol": rng.choice([None, 2, 3, 4, 5])}
    if stdin:
        p["stdin"] = g.text_bytes().hex()
    if p["when"] == "running":
        p["when"] = "running" if not stdin else "ran"
    return {"scn": "pickled", "p": p, "delays": g.delays() if rng.random() < 0.3 else {}, "cfg": g.cfg(0.2), "modelled": g.modelled}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def dumps(data, std=True):
    """What is written, with what commands print of themselves made comparable; lines sorted"""
    res = []
    n = 0
    for l in data.split(b"\n"):
        if l.startswith(b'{"argv":') and l.endswith(b"}"):
            d = json.loads(l.decode())
            d["env"].sort()
            fds = {}
            for fd, x in d["fds"].items():
                kind = x["mode"] & 0o170000
                kind = x["mode"] & 0o170000
                if int(fd) >= 10 and kind == 0o010000:
                    fd = "pipe"     # Its number is in the arguments
                    fds[fd] = fds.get(fd, []) + [x["fdfl"]]
                    continue
                fds[fd] = [x["fdfl"]]
                if std or int(fd) > 2:      # Standard ones are of where it is run
                    fds[fd] += [x["fl"] & 0o3, x["fl"] & os.O_APPEND]
                if int(fd) > 2:
                    fds[fd].append(kind)
            argv = [re.sub("^2f6465762f66642f(3.)+$", "FD", a) for a in d["argv"]]
            res.append(json.dumps([argv, d["env"], d["cwd"], fds, d["umask"]]).encode())
            n += 1
        else:
            res.append(l)
    return sorted(res), n


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    if not j.check("unpicklable" not in obs, "pickling", obs.get("unpicklable")):
        return
    orig = obs["runs"][0]
    # Environments are numbered by address
    a, b = [re.sub(r"\[\d+:", "[N:", t) for t in obs["copy text"]]
    j.eq(b, a, "text", "text of the copy")
    j.eq(obs["run by pickling"], 0, "pickling", "processes started by pickling and unpickling")
    ev = None
    if case["modelled"]:
        try:
            ev = model.evaluate(p["node"], bytes.fromhex(p.get("stdin", "")))
        except AssertionError:
            pass        # Filters of interleaved lines

    def output(o):
        return J.load(workdir, o["out"]) if "out" in o else None

    def failed(o):
        e = o.get("exc")
        if not e:
            return None
        # Writing to what has failed may or may not
        return [e["type"]] + sorted([str(x["id"]), x.get("code"), x.get("exc")] for x in (e.get("pipeline") or {"parts": []})["parts"]
                                    if x["infailed"] and x.get("code") != 74 and x.get("exc") != "BrokenPipeError")

    def broken(o):
        return any(x.get("exc") == "BrokenPipeError" for x in ((o.get("exc") or {}).get("pipeline") or {"parts": []})["parts"])

    def contents(o):
        rp = o.get("rp") or {"parts": []}
        # Subshells tell process ids
        return sorted([str(x["id"]), json.dumps(x["content"], sort_keys=True)] for x in rp["parts"] if "content" in x and not str(x["id"]).startswith("S"))
    for o in obs["runs"][1:]:
        std = o["what"] not in ("other process", "remote")
        what = "%s (pickled %s)" % (o["what"], p["when"])
        a, b = output(orig), output(o)
        if o["what"] == "other process":
            if len(failed(orig) or ()) > 1:
                j.check(o["code"] != 0, "other process", "%s: the original failed with %s, it exits with 0" % (what, failed(orig)))
                j.count("failures compared")
            elif not orig.get("exc"):
                j.eq(o["code"], 0, "other process", "%s: exit code; standard err %s" % (what, o["err"]))
            j.count("run in another process")
            if p["mode"] not in ("+", "await", "~", "run", "ri"):
                if b is not None and p["mode"] in J.LINE_MODES:
                    b = J.as_lines(b)
        elif o["what"] == "remote":
            e = o.get("exc")
            if len(failed(orig) or ()) != 1:
                j.check(bool(e) == bool(orig.get("exc")), "remote", lambda: "%s: raised %s, the original %s" % (what, e, failed(orig)))
            j.eq([x for x in obs["ssh"]][:3], ["-p", "22", "host"], "remote", "arguments of ssh")
            j.check(len(obs["ssh"]) == 5 and obs["ssh"][3].startswith("pieshell --pcmd="), "remote", "arguments of ssh: %s" % obs["ssh"])
            j.count("run by remote")
        else:
            fa, fb = failed(orig), failed(o)
            if broken(o) or broken(orig):
                fa, fb = [x and [p for p in x if p[0] != "None"] for x in (fa, fb)]
            if [len(x or ()) for x in (fa, fb)] not in ([0, 1], [1, 0]):
                j.eq(fb, fa, "failures", "%s: what failed" % what)
            j.eq(o["cwds"], orig["cwds"] if o["what"].startswith("original") else [e["cwd"] for e in p["envs"]], "cwd",
                 "%s: directories of the original environments" % what)
            if bool(o.get("exc")) == bool(orig.get("exc")):
                j.eq(contents(o), contents(orig), "errors", "%s: captured standard err" % what)
            if orig.get("exc"):
                j.count("failures compared")
        if a is not None and b is not None:
            (la, na), (lb, nb) = dumps(a, std), dumps(b, std)
            if la != lb:
                i = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                if i < min(len(la), len(lb)):
                    k = next((k for k, (x, y) in enumerate(zip(la[i], lb[i])) if x != y), 0)
                    la, lb = la[i][max(0, k - 100):k + 300], lb[i][max(0, k - 100):k + 300]
                j.fail("output", "%s: output %s, that of the original %s" % (what, repr(lb)[:1500], repr(la)[:1500]))
            j.count("command environments compared", nb)
        elif o["what"] in ("copy", "original again") and bool(o.get("exc")) == bool(orig.get("exc")):
            j.check((a is None) == (b is None), "output", "%s: could output be read" % what)
        fa = {n: dumps(bytes.fromhex(x), std)[0] for n, x in orig["files"].items()}
        fb = {n: dumps(bytes.fromhex(x), std)[0] for n, x in o["files"].items()}
        j.check(fa == fb, "files", lambda: "%s: files written %s, those of the original %s" % (what, fb, fa))
        j.count("files compared", len(fb))
        j.count("copies run")
        if ev is not None and b is not None and not any(x.may for x in ev.parts):
            out = ev.out
            if p["mode"] in J.LINE_MODES:
                out = out.map(J.as_lines)
            err = model.check_out(b, out)
            j.check(not err, "output", "%s: %s" % (what, err))
            j.count("outputs compared with the model")
        if b or fb:
            j.nontrivial()
    J.check_conserved(j, res, tmp=False)
