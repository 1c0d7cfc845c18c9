"""C27: builtins take the same syntax and places as commands"""
import importlib
import json
import os

from .. import gen, model, judge as J
from . import c01, c02, c05, c06, c08, c10, c11, c12, c14, c16, c25

RULE = ("Cases of eleven other properties - output, input, lines, failures, redirects, syntax, globs, environments, arguments, pipelines run repeatedly, "
        "commands that can not start - with builtins of five kinds in place of the programs, each running the program of its name, judged as they are "
        "there; builtins that are pipelines of their own, of 1-4 parts, nested, at every position; histories of 4-12 cd, bg, fg and clear_dir_cache in all "
        "syntaxes and 15 positions against a model of the directories; builtins of installed packages; "
        "non-trivial if a builtin was run, distinct by description")
QUICK = {"cases": 700, "budget": 45, "batch": 20}
THOROUGH = {"cases": 40000, "budget": 400, "batch": 20}
REQUIRED = {"builtins run": 800, "pipelines as builtins": 90, "directories changed": 300, "failed changes": 40, "pipelines continued": 15, "builtins in pipelines": 150,
            "files of builtins": 15, "builtins of packages": 1}
TIMEOUT = 60
TECHNIQUE = ("runtime monitoring: builtins registered around the programs of other properties' workloads, judged by those properties' oracles, and online "
             "checks of what builtins are called with; histories of cd and job control against a model")
ASSUMPTIONS = ["A builtin that runs something keeps it in self._cmd, as README shows",
               "Commands that write to a builtin that reads nothing may fail from that"]

OF = [(c01, 4), (c02, 2), (c05, 4), (c06, 2), (c08, 4), (c10, 4), (c11, 2), (c12, 4), (c14, 2), (c16, 3), (c25, 3)]
PROGRAMS = ["vh", "alpha", "beta", "gamma", "delta", "vh-x", "vh.y", "9lives", "is_running", "dumper", "dumper2", "dumper_x", "dumper-x", "dumper.y", "cat"]


def shadow(rng, tier):
    mod = rng.choice([m for m, n in OF for i in range(n)])
    it = mod.cases(rng, tier)
    case = next(it)
    for i in range(rng.randrange(4)):
        case = next(it)
    kinds = {}
    # A builtin with a name has that instead of an argument x.name
    for name in PROGRAMS:
        if rng.random() < 0.85:
            kinds[name] = [rng.choice(["plain", "plain", "plain", "keep", "call", "nested", "redirect"]), "name" if mod is c10 else rng.choice(["attr", "name", "other"])]
    again = {name: rng.choice([1, 2]) for name in kinds if rng.random() < 0.1}
    return dict(case, scn="shadow", p={"of": mod.__name__.split(".")[-1], "scn": case["scn"], "p": case["p"], "kinds": kinds, "again": again})


# -- Pipelines as builtins ---------------------------------------------
def made(rng, tier):
    g = gen.Gen(rng)

    def ending(n):
        if n[0] == "c":
            if rng.random() < 0.3:
                n[1].append("e:" + g.text(rng.choice([3, 30])).replace("\0", "").encode("utf-8").hex())
            if rng.random() < 0.15:
                n[1].append("x:%d" % rng.choice([0, 1, 3, 255]))
        return n

    def source():
        if rng.random() < 0.2:
            return g.iterator(kinds=["gen", "list", "fgen", "fagen"], big=False)
        return ending(g.source(text=True))

    def filt(depth):
        k = rng.random()
        if depth and k < 0.5:
            return ["made", body(False, depth - 1), args(), rng.randrange(3)]
        if k < 0.65:
            return g.function(ops=["up", "id", "num"])
        return ending(g.cmd([rng.choice(["cat", "cat", "up", "lcat"])]))

    def args():
        return rng.choice([[], [], ["a"], ["a", "b"], ["--x"]])

    def body(first, depth):
        parts = [source() if first else filt(depth)]
        for i in range(rng.choice([0, 0, 1, 1, 2])):
            parts.append(filt(depth))
        return g.pipe(parts)

    def src(depth):
        if rng.random() < 0.5:
            return ["made", body(True, depth), args(), rng.randrange(3)]
        return source()
    k = rng.random()
    mode = rng.choice(["bytes", "str", "iter", "list", "aiter", "raiter", "iterbytes", "+", "~", "await", "run", "ri"])
    noout = 0
    if k < 0.12:
        node = ["+", ["made", g.cmd(["gl:%s:%d:20:0" % (g.id("T"), rng.choice([1, 30]))]), args(), 0],
                ["made", ["|", g.cmd(["gl:%s:%d:20:0" % (g.id("T"), rng.choice([1, 30]))]), g.cmd(["lcat"])], args(), 1]]
        if rng.random() < 0.5:
            node = ["|", node, ["made", g.cmd(["lcat"]), args(), 2]]
    elif k < 0.24:
        a = ["made", body(True, 1), args(), rng.randrange(3)]
        node = g.cmd(["args", {"n": a}])
        if rng.random() < 0.4:
            node = ["|", node, filt(1)]
    else:
        parts = [src(1)] + [filt(2) for i in range(rng.choice([0, 1, 1, 2, 3]))]
        if not any(x[0] == "made" for x in parts):
            parts.append(["made", body(False, 1), args(), rng.randrange(3)])
        node = g.pipe(parts)
    p = {"node": node, "kind": "made", "mode": mode}
    if rng.random() < 0.15:
        p["out"] = "@D/outfile"
        p["mode"] = rng.choice(["+", "~", "await", "run", "ri"])
    return {"scn": "made", "p": p, "delays": g.delays(), "cfg": g.cfg(), "noout": noout}


def unmade(n):
    if n[0] == "made":
        return unmade(n[1])
    if n[0] in ("|", "+"):
        return [n[0], unmade(n[1]), unmade(n[2])]
    if n[0] == "c":
        return ["c", [dict(a, n=unmade(a["n"])) if isinstance(a, dict) and "n" in a else a for a in n[1]], n[2]]
    return n


def nmade(n):
    if n[0] == "made":
        return 1 + nmade(n[1])
    if n[0] in ("|", "+"):
        return nmade(n[1]) + nmade(n[2])
    if n[0] == "c":
        return sum(nmade(a["n"]) for a in n[1] if isinstance(a, dict) and "n" in a)
    return 0


def judge_made(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    ev = model.evaluate(unmade(p["node"]), None)
    e = J.check_failures(j, case, res, ev)
    J.check_output(j, case, res, ev, workdir)
    rp = e["pipeline"] if e and "pipeline" in e else obs.get("rp")
    if rp:
        J.check_parts(j, rp, ev)
    n = nmade(p["node"])
    j.eq(obs["calls"], n, "calls", "builtins run")
    j.eq(obs["made"], n, "environment", "changes of the environment")
    j.check(not obs["bad"], "calls", lambda: "builtins were run with %s" % obs["bad"])
    J.check_conserved(j, res)
    j.count("builtins run", obs["calls"])
    j.count("pipelines as builtins", n)


# -- Histories ------------------------------------------------------------
DIRS = ["d1", "d1/s1", "d1/s1/u", "d2", "e e", "~", "~/in", "~nosuch", "d*", "PARENT", "ROOT", "d1/PARENT", "home", "home/h1", "%d", "%(x)s", "cd", "ünï", "-x", "fold"]
TREE = [["d", d] for d in DIRS] + [["f", "file"], ["f", "d1/f1"], ["l", "link", "d1/s1"], ["l", "d2/up", "../d1"], ["l", "dead", "nosuch"], ["l", "abs", "@T/d2"]]
POSITIONS = ["+", "+", "+", "bytes", "list", "await", "run", "src", "src", "dst", "dst", "grouped", "group2", "file", "stdin", "iter", "string", "tmp"]


def history(rng, tier):
    steps = []
    started = False
    interactive = rng.random() < 0.3
    names = sorted({d.split("/")[-1] for d in DIRS}) + ["link", "up", "abs"]

    def args():
        k = rng.random()
        if k < 0.08:
            return []
        if k < 0.2:
            return ["PARENT"]
        if k < 0.25:
            return ["ROOT"]
        if k < 0.3:
            return [rng.choice(["@T", "@T/d1", "@T/d1/s1/", "@T//d2", "@T/link"])]
        if k < 0.36:
            return [rng.choice(["..", ".", "../..", "./d1", "d1/..", "d1/s1", "d1/../d2", "~", "~/h1", "~nosuch", "./~", "", "d1/"])]
        if k < 0.42:
            return [{"R": rng.choice(["~", "PARENT", "ROOT", "d1", "@T", "%(x)s", "d*", "~nosuch", "nosuch"])}]
        if k < 0.46:
            return [{"P": rng.choice(["d1", "@T/d2", "nosuch", "d1/s1"])}]
        if k < 0.56:
            return [rng.choice(["nosuch", "file", "dead", "file/x", "d1/nosuch", "@T/nosuch"])]
        if k < 0.68:
            return [rng.choice(["@T", "@T", "ROOT"])] + [rng.choice(names + ["PARENT"]) for i in range(rng.randrange(1, 3))]
        if k < 0.8:
            return ["PARENT"] * rng.randrange(1, 3) + [rng.choice(names)]
        if k < 0.88:
            return rng.choice([["@T", "d1", "s1", "u"], ["@T", "d1", "s1", "PARENT", "PARENT", "d2"], ["@T", {"R": "~"}, "in"], ["@T", "d1", {"R": "PARENT"}], ["d1", "s1"],
                               ["@T", "home", "PARENT", "fold"], ["@T/d2", "up", "PARENT"], ["@T", "d1", "@T", "d2"], ["~", "h1"], ["d2", "ROOT"], ["@T", {"R": "ROOT"}]])
        return [rng.choice(names)]
    for i in range(rng.randint(4, 12)):
        k = rng.random()
        m = rng.choice(POSITIONS)
        if interactive and rng.random() < 0.3:
            m = "repr"
        if k < 0.62:
            steps.append({"cmd": "cd", "args": args(), "style": rng.randrange(4), "mode": m})
        elif k < 0.7:
            steps.append({"cmd": "clear", "mode": m})
        elif not started:
            if rng.random() < 0.25:
                steps.append({"cmd": rng.choice(["bg", "fg"]), "mode": rng.choice(["+", "bytes", "run", "await"])})
            elif not interactive or 1:
                steps.append({"cmd": "start", "code": rng.choice([0, 0, 3])})
                started = True
        elif k < 0.85:
            steps.append({"cmd": "bg", "arg": rng.randrange(2), "mode": m})
            if rng.random() < 0.5:
                steps.append({"cmd": "end"})
                started = False
        elif k < 0.95 and steps and steps[-1]["cmd"] != "start":
            steps.append({"cmd": "end"})
            started = False
        else:
            steps.append({"cmd": "fg", "arg": rng.randrange(2), "mode": rng.choice(["+", "run", "await", "repr" if interactive else "+"])})
            started = False
    if started:
        steps.append({"cmd": "end"})
    return {"scn": "history", "p": {"tree": TREE, "steps": steps, "interactive": interactive, "start": rng.choice(["", "d1", "d1/s1", "e e"])}, "delays": {}, "cfg": {}}


LINKS = {"@T/" + e[1]: e[2] for e in TREE if e[0] == "l"}


def resolve(path):
    """Without links"""
    at = "@T"
    for s in path.split("/")[1:]:
        at += "/" + s
        if at in LINKS:
            t = LINKS[at]
            at = norm(t if t.startswith("@T") else os.path.dirname(at) + "/" + t)
    return at


def isdir(path):
    return resolve(path) in {"@T/" + d for d in DIRS} | {"@T"}


def norm(path):
    """Without . and .. and repeated /"""
    out = []
    for s in path.split("/"):
        if s in ("", "."):
            continue
        if s == "..":
            out = out[:-1]
        else:
            out.append(s)
    if out and out[0] == "@T":
        return "/".join(out)
    return "/" + "/".join(out)


def target(args, cwd):
    """Where cd goes"""
    if not args:
        return "@T/home"
    path = ""
    for i, a in enumerate(args):
        if isinstance(a, dict):
            s = a.get("R", a.get("P"))
            literal = "R" in a
        else:
            s = {"PARENT": "..", "ROOT": "/"}.get(a, a)
            literal = False
        if s.startswith("@T"):
            path = s
        elif s.startswith("/"):
            path = s
        elif path == "" and i == 0 and not literal and (s == "~" or s.startswith("~/")):
            path = "@T/home" + s[1:]
        elif path == "":
            path = s
        else:
            path = path.rstrip("/") + "/" + s if path != "/" else "/" + s
    if not path.startswith(("@T", "/")):
        path = cwd.rstrip("/") + "/" + path
    return path


def judge_history(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    top = obs["top"]
    full = lambda x: (top + x[2:]) if x.startswith("@T") else x

    def short(x):
        """A path the way the model has it"""
        return "@T" + x[len(top):] if x == top or x.startswith(top + "/") else x

    cwd = norm("@T/" + p["start"])
    stopped = None      # None without a pipeline
    last = None         # what bg and fg are about
    clean = True
    it = iter(obs["steps"])
    for s in p["steps"]:
        if s["cmd"] == "start":
            stopped = True
            last = "rp"
            code = s["code"]
            continue
        o = next(it)
        if s["cmd"] == "end":
            j.check(not stopped or o["before"] == "T", "continued", "a stopped pipeline is continued by something else")
            j.eq(o["ended"], code, "continued", "the status of the pipeline that was stopped")
            stopped = last = None
            continue
        what = json.dumps(s, ensure_ascii=True)
        m = s["mode"]
        err = o.get("exc")
        fail = False
        mayfail = m in ("dst", "iter")   # What writes to it is told that nobody reads
        if s["cmd"] == "cd":
            t = short(norm(full(target(s["args"], full(cwd)))))
            if t.startswith("@T"):
                ok = isdir(t)
            else:
                ok = top.startswith(t.rstrip("/") + "/") or os.path.isdir(t)
            if ok:
                cwd = t
                j.count("directories changed")
            else:
                fail = True
                j.count("failed changes")
        elif s["cmd"] in ("bg", "fg"):
            about = "rp" if s.get("arg") and stopped is not None else last
            if about is None:
                fail = True
            elif about == "rp":
                j.count("pipelines continued")
                if s["cmd"] == "bg":
                    j.check(o.get("state") not in ("T", "t"), "continued", "%s: the pipeline is still stopped" % what)
                    stopped = False
            else:
                mayfail = True
        if fail:
            if m == "repr":
                j.check(err or o.get("repr"), "failed", "%s: nothing raised or shown in %s" % (what, cwd))
            elif j.check(err, "failed", "%s: nothing raised in %s" % (what, cwd)):
                j.check(o["oserror"] or s["cmd"] != "cd", "failed", "%s: raised %s %s" % (what, err["type"], err.get("tb")))
            if m not in ("+", "run", "await", "repr", "string", "tmp", "stdin", "file"):
                clean = False
        elif err and s["cmd"] == "fg" and (code or mayfail):
            j.eq(err["type"], "PipelineFailed", "failed", "%s: raised %s" % (what, err.get("tb")))
        elif err:
            j.check(mayfail and err["type"] == "PipelineFailed", "failed", lambda: "%s: raised %s %s %s" % (what, err["type"], err.get("str"), err.get("tb")))
        if s["cmd"] == "fg" and not fail:
            if about == "rp":
                j.check(o.get("done"), "continued", "%s: it is still running" % what)
                if code and m != "repr":
                    j.check(err, "failed", "%s: the failure is not raised" % what)
                stopped = last = None
            elif stopped is not None:
                stopped = last = None
        if not fail and not err:
            if m in ("bytes", "list", "dst", "iter"):
                j.eq(o["out"], "", "output", "%s: the output" % what)
            elif m in ("src", "grouped", "group2"):
                j.eq(bytes.fromhex(o["out"]), {"src": b"B", "grouped": b"G", "group2": b"H"}[m], "output", "%s: the output" % what)
            elif m == "file":
                j.eq(o["file"], 0, "output", "%s: the size of the file" % what)
                j.count("files of builtins")
            elif m == "repr":
                j.eq(o["repr"], "", "output", "%s: shown" % what)
        if m in ("src", "dst", "grouped", "group2", "iter"):
            j.count("builtins in pipelines")
            if s["cmd"] != "fg" and not fail:
                last = "other"
        elif s["cmd"] != "fg":
            j.eq(o["last"], "same", "last", "%s: last_pipeline" % what)
        # Links are followed by commands, not by cd
        if not j.eq(o["cwd"], full(cwd), "directory", "%s: the directory of the environment" % what):
            return
        at = full(resolve(cwd)) if cwd.startswith("@T") else os.path.realpath(cwd)
        j.check(o["other"], "directory", "%s: another environment changed directory" % what)
        j.eq(bytes.fromhex(o["ran"]).decode("utf-8", "surrogateescape").strip("\n"), at, "directory", "%s: where commands run" % what)
        j.eq(o["real"], at if p["interactive"] else obs["realcwd"], "directory", "%s: directory of the shell" % what)
        j.count("builtins run")
    if clean:
        J.check_conserved(j, res)


# -- Packages ---------------------------------------------------------------
def entry(rng, tier):
    word = lambda: "".join(rng.choice("abcdefgh_") for i in range(rng.randint(2, 6))) + "q"
    dists = {}
    names = []
    code = ["from pieshell import *", "def show(*a): print(*a, flush=True)"]
    want = []
    for i in range(rng.choice([1, 2])):
        d = "vfdist%d" % i
        lines = ["[console_scripts]", "cd = %s:notabuiltin" % d, "[pieshell.builtin]"]
        src = ["import pieshell", "notabuiltin = None"]
        for c in range(rng.choice([1, 2])):
            n = word()
            if n in names:
                continue
            names.append(n)
            sep = rng.choice(["-", "", "."])
            key = n + sep + "x" if sep else n
            lines.append("%s = %s:C%d" % (key, d, c))
            op = rng.choice(["up", "cat", "rev"])
            src += ["class C%d(pieshell.Builtin):" % c, "    name = %r" % rng.choice(["ls", "somethingelse", n]),
                    "    def _run(self, redirects, sess, indentation=''):",
                    "        self._cmd = self._env.vh('nop:%s', %r, 'w:' + self._arg[1].encode().hex())" % (n, op),
                    "        return self._cmd._run(redirects, sess, indentation)"]
            arg = "z" + word()
            data = word()
            out = {"up": data.upper(), "cat": data, "rev": data[::-1]}[op] + arg
            code.append("show(repr(bytes([%r.encode()] | env._(%r, %r) | env.vh('nop:C', 'cat'))))" % (data, key, arg))
            want.append([op, data, arg])
            code.append("show(BuiltinRegistry.get_by_name(%r).__name__, %r in dir(env))" % (key, key))
            want.append("C%d True" % c)
        dists[d] = ["\n".join(lines) + "\n", "\n".join(src) + "\n"]
    code.append("show(sorted(set(['cd', 'bg', 'fg', 'bashsource', 'subshell', 'remote', 'clear_dir_cache']) - set(BuiltinRegistry.builtins)))")
    want.append("[]")
    return {"scn": "entry", "p": {"dists": dists, "code": "\n".join(code) + "\n"}, "want": want, "delays": {}, "cfg": {}}


def judge_entry(case, res, j, workdir):
    obs = res["obs"]
    out = bytes.fromhex(obs["out"]).decode("utf-8", "replace").splitlines()
    want = []
    for w in case["want"]:
        if isinstance(w, list):
            op, data, arg = w
            data += "\n"
            want.append(repr(({"up": data.upper(), "cat": data, "rev": data[::-1]}[op] + arg).encode()))
            j.count("builtins of packages")
            j.count("builtins run")
        else:
            want.append(w)
    j.eq(obs["code"], 0, "packages", "exit status, with %s" % obs["err"])
    j.eq(out, want, "packages", "printed, with %s" % obs["err"])


def one(rng, tier):
    k = rng.random()
    if k < 0.55:
        return shadow(rng, tier)
    if k < 0.75:
        return made(rng, tier)
    return history(rng, tier)


def cases(rng, tier):
    n = 0
    while True:
        n += 1
        if n % 120 == 5:
            yield entry(rng, tier)
        else:
            yield one(rng, tier)


def judge(case, res, j, workdir):
    J.observed(j, res)
    p = case["p"]
    if case["scn"] == "made":
        judge_made(case, res, j, workdir)
    elif case["scn"] == "history":
        judge_history(case, res, j, workdir)
    elif case["scn"] == "entry":
        judge_entry(case, res, j, workdir)
    else:
        obs = res["obs"]
        j.count("builtins run", obs["calls"])
        j.check(not obs["bad"], "calls", lambda: "builtins were run with %s" % obs["bad"])
        mod = importlib.import_module("vf.props." + p["of"])
        sub = dict(case, scn=p["scn"], p=p["p"])
        mod.judge(sub, dict(res, obs=obs["of"]), j, workdir)
        j.count("cases of " + p["of"])
        return
    j.nontrivial([case["scn"], p])
