"""C25: commands that cannot be started fail like commands, and only they"""
import errno
import os

from .. import gen, model, judge as J

RULE = ("Random pipelines, groups and arguments in which one to three commands cannot be started, in 15 ways (no such program, not "
        "executable, a directory, a loop of links, not a program, too many arguments, impossible ones, directory gone, files of redirects that can't be "
        "opened for 5 reasons), with output pending in the shell; exit status, standard err, the other parts' output and ends, what "
        "came back into the shell's code and what was written twice are compared with the model; non-trivial always, distinct by description")
QUICK = {"cases": 600, "budget": 22}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"commands not started": 500, "functions not started": 10, "standard err compared": 150}
MODES = ["bytes", "str", "iter", "list", "aiter", "raiter", "iterbytes", "slowbytes", "+", "~", "await", "run", "ri"]


def bad(g, rng, cmd, gone, first):
    """Makes a command one that can't be started"""
    args, opts = cmd[1], cmd[2]
    if opts.get("style") in (1, 2, 3):
        opts["style"] = 0
    k = rng.choice(["noent", "noent", "noentpath", "notdir", "noexec", "dir", "loop", "garbage", "big", "long", "gone", "redir", "redir", "redir", "interp", "nul", "unencodable"])
    id = args[1][4:]
    if k == "noent":
        args[0] = "vf-no-such-program"
        e = errno.ENOENT
    elif k == "noentpath":
        args[0] = rng.choice(["./nope", "@D/nope", "nodir/nope"])
        e = errno.ENOENT
    elif k == "notdir":
        args[0] = "@D/noexec/x"
        e = errno.ENOTDIR
    elif k == "noexec":
        args[0] = rng.choice(["./noexec", "@D/noexec"])
        e = errno.EACCES
    elif k == "dir":
        args[0] = rng.choice(["@D", "./sub"])
        e = errno.EACCES
    elif k == "loop":
        args[0] = "./loop"
        e = errno.ELOOP
    elif k == "garbage":
        args[0] = "./garbage"
        e = errno.ENOEXEC
    elif k == "interp":
        args[0] = "./interp"
        e = errno.ENOENT
    elif k == "big":
        args.append("z" * 140000)
        e = errno.E2BIG
    elif k == "long":
        args[0] = "/" + "n" * 300
        e = errno.ENAMETOOLONG
    elif k in ("nul", "unencodable"):
        # No error of the operating system, which has not been asked
        args.append("a\0b" if k == "nul" else "\ud800")
        e = "nonzero"
    elif k == "gone":
        name = "g" + id
        gone.append(name)
        opts["env"] = name
        e = errno.ENOENT
    else:
        t, e = rng.choice([("@D/nodir/file", errno.ENOENT), ("@D", errno.EISDIR), ("@D/ro", errno.EACCES),
                           ("@D/loop", errno.ELOOP), ("@D/noexec/file", errno.ENOTDIR), ("@D/" + "n" * 300, errno.ENAMETOOLONG)])
        fd = rng.choice(["stdout", "stdout", "stderr", 5, "stdin"])
        if fd == "stdin" and e in (errno.EISDIR, errno.EACCES):
            t, e = "@D/nofile", errno.ENOENT
        r = {"fd": fd, "to": t}
        if fd == 5:
            r["flag"] = os.O_WRONLY | os.O_CREAT
        opts["badredir"] = [r]
        if rng.random() < 0.3:
            opts["badredir"].append({"fd": 7, "to": "@D/good", "flag": os.O_WRONLY | os.O_CREAT})
        opts["redirfd"] = fd
    opts["nostart"] = e
    opts["why"] = k
    return cmd


def badfn(g, rng):
    """A function with a file that can't be opened or read"""
    fn = g.function()
    fd = rng.choice(["stdin", "stdout"])
    if fd == "stdin":
        t, e = rng.choice([("@D/nofile", "FileNotFoundError"), ("@D/noexec/file", "NotADirectoryError"), ("@D/loop", "OSError"),
                           ("@D", "IsADirectoryError")])
    else:
        t, e = rng.choice([("@D/nodir/file", "FileNotFoundError"), ("@D", "IsADirectoryError"), ("@D/loop", "OSError")])
    fn[2]["nostart"] = e
    return ["r", fn, {"fd": fd, "to": t}]


def one(rng, tier):
    g = gen.Gen(rng)
    gone = []
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    bads = set(rng.sample(range(n), min(n, rng.choice([1, 1, 1, 2, 3]))))
    parts = []
    for i in range(n):
        if i in bads and i and rng.random() < 0.15:
            parts.append(badfn(g, rng))
        elif i in bads:
            c = g.cmd(g.hexw(g.text_bytes()) + ["e:" + "unwanted".encode().hex()])
            if rng.random() < 0.15:
                c[1].append("args")
                c[1].append({"n": g.cmd(["w:6869", "e:6869"])})
            elif rng.random() < 0.1:
                c[1] += ["mix", "out:6869", {"n": ["fn", "sink", {"style": "agen"}, g.id("F")]}]
            parts.append(bad(g, rng, c, gone, i == 0))
        elif i == 0:
            parts.append(g.source(text=True) if rng.random() < 0.8 else g.iterator(big=False))
        elif rng.random() < 0.3:
            parts.append(g.function())
        else:
            parts.append(g.filter(text=True))
    node = g.pipe(parts)
    k = rng.random()
    if k < 0.12:
        other = g.source(lines=True)
        node = ["+", node, other] if rng.random() < 0.5 else ["+", other, node]
        if n > 1 or 0 not in bads:
            # Only lines told apart can be interleaved
            node = ["+", parts[min(bads)], other] if rng.random() < 0.5 else ["+", other, parts[min(bads)]]
    elif k < 0.22:
        node = g.cmd(["args", {"n": node}, "=x"])
    gone = [x for x in gone if "'%s'" % x in repr(node)]
    p = {"node": node, "mode": rng.choice(MODES), "gone": gone}
    if rng.random() < 0.4:
        p["pending"] = "<<pending in the shell>>"
    p["setup"] = 1
    return {"scn": "nostart", "p": p, "delays": g.delays(), "cfg": g.cfg()}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def bad_nodes(node, res):
    if isinstance(node, list):
        if node and node[0] == "c":
            if node[2].get("nostart") and node[0] == "c":
                res[model.cmd_id(node[1])] = node
        for x in node:
            bad_nodes(x, res)
    elif isinstance(node, dict):
        for x in node.values():
            bad_nodes(x, res)
    return res


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    ev = model.evaluate(p["node"], None)
    J.observed(j, res)
    j.check(not res.get("leaked"), "returned", "a child came back into the shell's code: %s" % res.get("leaked"))
    if "pending" in p:
        for name in {obs.get("stdout"), obs.get("out") if p["mode"] not in MODES[:8] else None} - {None}:
            with open(os.path.join(workdir, name), "rb") as f:
                data = f.read()
            n = data.count(p["pending"].encode())
            j.eq(n, 1, "pending", "times output pending in the shell was written")
            with open(os.path.join(workdir, name), "wb") as f:
                f.write(data.replace(p["pending"].encode(), b""))
        j.count("output pending in the shell")
    e = J.check_failures(j, case, res, ev)
    J.check_output(j, case, res, ev, workdir)
    bad = bad_nodes(p["node"], {})
    rp = e["pipeline"] if e and "pipeline" in e else obs.get("rp")
    j.count("commands not started", len(bad))
    if rp:
        J.check_parts(j, rp, ev)
        for x in rp["parts"]:
            if x["id"] in bad:
                n = bad[x["id"]]
                if n[2].get("redirfd") == "stderr" or "content" not in x:
                    continue
                text = x["content"].get("2")
                reason = os.strerror(n[2]["nostart"]) if n[2]["nostart"] != "nonzero" else ""
                j.check(isinstance(text, str) and text.strip() and reason in text, "reason", lambda: (
                    "standard err of %s, which could not be started (%s), is %r" % (x["id"], n[2]["why"], text)))
                j.check("unwanted" not in (text or "").replace(str(n[1]), "").split("Unable")[0], "ran", lambda: "%s was run: %r" % (x["id"], text))
                j.count("standard err compared")
    j.count("functions not started", repr(p["node"]).count("'fn'") and repr(p["node"]).count("'nostart': '"))
    for x, n in bad.items():
        j.distinct("ways not to start", n[2]["why"])
    j.nontrivial([p["node"], p["mode"]])
