"""C07: descriptors, children and temporary files are conserved"""
import os

from .. import gen, model, judge as J
from . import c01, c02, c03, c04, c05, c25

RULE = ("Histories of 1-12 runs in one shell: pipelines of the kinds of C01-C05 and C25 (data, Python parts, arguments, scheduled endings, "
        "failures, commands that can't be started), several at once, suspended and resumed, TMP captures, borrowed and handed over "
        "descriptors, builtins, subshells, bash scripts, imports; the table of descriptors (number and what is open), children, temporary "
        "files, directory, environment and umask of the shell before and after, and every close() in between, are compared; non-trivial "
        "if a process was started, distinct by the steps")
QUICK = {"cases": 330, "budget": 28, "batch": 14}
THOROUGH = {"cases": 30000, "budget": 400, "batch": 14}
REQUIRED = {"descriptor tables compared": 300, "runs": 900, "processes started": 1500, "descriptors handed over": 20,
            "descriptors borrowed": 20, "TMP files": 20}
TIMEOUT = 90


def ints(rng):
    g = gen.Gen(rng)
    files = {}

    def redir(c, fd, name, flags, borrowed):
        files[name] = [name, flags, borrowed]
        return ["r", c, {"fd": fd, "to": {"fd": name}, "borrowed": borrowed, "flag": flags}]
    n = rng.choice([1, 1, 2, 3])
    parts = []
    for i in range(n):
        c = g.source(text=True) if i == 0 else g.filter(text=True)
        if i and rng.random() < 0.15:
            c = g.function(["up", "id", "num"])
        bor = rng.random() < 0.5
        k = rng.random()
        if i == n - 1 and k < 0.6:
            c = redir(c, "stdout", g.id("o"), os.O_WRONLY, bor)
        elif i == 0 and k < 0.6 and c[0] == "c":
            c = redir(c, "stdin", g.id("i"), os.O_RDONLY, bor)
        if c[0] != "fn" and (c[0] == "c" or c[1][0] == "c"):
            if rng.random() < 0.4:
                c = redir(c, "stderr", g.id("e"), os.O_WRONLY, rng.random() < 0.5)
            if rng.random() < 0.3:
                c = redir(c, rng.choice([3, 5, 9, 20]), g.id("x"), os.O_RDWR, rng.random() < 0.5)
        parts.append(c)
    node = g.pipe(parts)
    if rng.random() < 0.2:
        node = ["+", node, g.source(lines=True)]
    if rng.random() < 0.25:
        node = redir(node, rng.choice(["stderr", "stdin", 7]), g.id("p"), os.O_RDWR, rng.random() < 0.5)
    if not files:
        node = redir(node, "stdout", g.id("p"), os.O_RDWR, rng.random() < 0.5)
    # Half of them can not be started
    if rng.random() < 0.15:
        for c in commands(node):
            if rng.random() < 0.5:
                c[1][0] = "vf-no-such-program"
                c[2]["style"] = 0
    return {"scn": "ints", "p": {"node": node, "files": files, "mode": rng.choice(["+", "+", "await", "ri"])}}


def commands(node):
    if node[0] == "c":
        yield node
    elif node[0] in ("|", "+"):
        for x in node[1:3]:
            yield from commands(x)
    elif node[0] == "r":
        yield from commands(node[1])


def tmps(rng):
    g = gen.Gen(rng)
    parts = []
    n = rng.choice([1, 1, 2, 3])
    for i in range(n):
        c = g.source(text=True) if i == 0 else g.filter(text=True)
        if i == n - 1 and rng.random() < 0.6:
            c = ["r", c, {"fd": "stdout", "to": {"special": "TMP"}}]
        if rng.random() < 0.4:
            c = ["r", c, {"fd": rng.choice(["stderr", 5]), "to": {"special": rng.choice(["TMP", "TMP", "STRING"])}, "flag": os.O_WRONLY | os.O_CREAT}]
        if rng.random() < 0.1:
            list(commands(c))[0][1].append("x:4")
        parts.append(c)
    node = g.pipe(parts)
    if rng.random() < 0.25:
        def part():
            c = g.source(lines=True)
            if rng.random() < 0.5:
                c = ["r", c, {"fd": rng.choice([3, 5, 20]), "to": {"special": rng.choice(["TMP", "STRING", "STRING"])}, "flag": os.O_WRONLY | os.O_CREAT}]
            return c
        node = ["r", ["+", part(), part()], {"fd": rng.choice(["stdout", "stderr"]), "to": {"special": rng.choice(["TMP", "STRING"])}}]
    elif rng.random() < 0.2:
        node = ["r", node, {"fd": "stderr", "to": {"special": "TMP"}}]
    return {"scn": "tmp", "p": {"node": node, "remove": rng.random() < 0.6}}


def step(rng, tier):
    k = rng.random()
    if k < 0.62:
        m = rng.choice([c01, c02, c02, c03, c03, c05, c05, c25, c25, c04])
        c = m.one(rng, tier)
        return {"scn": c["scn"], "p": c["p"]}
    if k < 0.75:
        return ints(rng)
    if k < 0.83:
        return tmps(rng)
    if k < 0.88:
        nodes, read = [], []
        for i in range(rng.choice([2, 3, 5])):
            c = rng.choice([c01, c02, c03]).one(rng, tier)
            nodes.append(c["p"]["node"])
            read.append(rng.choice(["read", "bytes", "wait"]))
            if "stdin" in c["p"] or "sub" in repr(c["p"]["node"]):
                nodes.pop()
                read.pop()
        # Not valid UTF-8
        return {"scn": "conc", "p": {"nodes": nodes, "read": ["bytes" if r == "read" else r for r in read]}}
    if k < 0.92:
        c = c01.one(rng, tier)
        return {"scn": "suspend", "p": {"node": c["p"]["node"], "times": rng.choice([1, 2, 4])}}
    return {"scn": "builtins", "p": {"what": rng.choice(["cd", "bash", "bashfail", "sub", "subfail", "clear", "import", "repr", "coerce"])}}


def one(rng, tier):
    n = rng.choice([1, 2, 2, 3, 4, 6]) if tier == "quick" else rng.choice([1, 2, 4, 12, 25])
    g = gen.Gen(rng)
    cfg = g.cfg()
    if rng.random() < 0.2:
        cfg["nofile"] = 256
    return {"scn": "history", "p": {"steps": [step(rng, tier) for i in range(n)]}, "delays": g.delays(), "cfg": cfg}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    obs = res["obs"]
    J.observed(j, res)
    kept = []
    for s, o in zip(case["p"]["steps"], obs["steps"]):
        j.count("runs")
        j.count("runs of " + s["scn"])
        e = o.get("exc")
        if e and e["type"] not in ("PipelineFailed",):
            j.fail("exception", "%s raised %s %s %s" % (s["scn"], e["type"], e.get("str"), e.get("tb")))
        for x in ("unended", "stuck"):
            if o.get(x):
                j.fail("exception", "%s: %s %s" % (s["scn"], x, o[x]))
        if s["scn"] == "ints":
            for name, (path, flags, borrowed) in s["p"]["files"].items():
                if borrowed:
                    j.count("descriptors borrowed")
                    j.check(name not in o["closed"], "borrowed", "a borrowed descriptor (%s) was closed" % name)
                else:
                    j.count("descriptors handed over")
                    j.check(name not in o["open"], "handed over", "a descriptor handed over (%s) was not closed" % name)
        if s["scn"] == "tmp":
            j.count("TMP files", len(o["files"]))
            j.check(all(d == o["tmpdir"] and there for d, n, there in o["files"]), "tmp", lambda: "files of TMP are %s" % o["files"])
            j.eq(o["new"], sorted(n for d, n, t in o["files"]), "tmp", "temporary files after the pipeline")
            if s["p"]["remove"]:
                j.eq(o["after"], [], "tmp", "temporary files after remove_output_files()")
            else:
                kept += [n for d, n, t in o["files"]]
    end = res["end"]
    J.check_conserved(j, res, tmp=False)
    j.eq(end["tmp"], sorted(kept), "conserved", "temporary files")
    j.check(not res["mon"]["badkills"], "kills", "kill() of processes that are not the shell's: %s" % res["mon"]["badkills"])
    j.count("descriptor tables compared")
    if res["mon"]["forks"]:
        j.nontrivial()
