"""C08: redirects open what they say, how they say, where they say"""
import os

from .. import gen, model, judge as J

RULE = ("Random chains of 1-3 commands with 1-5 redirects each (all forms; str, bytes, Path, None; relative to the environment, absolute, "
        "through links; all flags, modes and umasks; redirected again further out) on files that exist with random content and modes or don't, "
        "run 1-3 times, compared - files, modes, contents, flags, statuses - with the same programs started with plain os.open() in a copy of the "
        "directory; and files shared by groups, pipes and arguments; non-trivial if a file was opened, distinct by description")
QUICK = {"cases": 700, "budget": 25}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"redirects": 800, "files compared": 1500, "opens that fail": 40, "shared files": 60, "redirects not in effect": 60}

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h", "sp ace", "*star", "~tilde", "%(x)s", "-dash", "\u00e5\u00e4", "trail ", " lead", "line\n", "tab\t", "dot.", "new1", "new2", "new3", "new4", "new5", "new6"]


def flags(rng, write):
    f = os.O_WRONLY if rng.random() < 0.75 else os.O_RDWR
    if not write:
        f = rng.choice([os.O_RDONLY, os.O_RDONLY, os.O_RDWR])
    for x, p in ((os.O_CREAT, 0.6), (os.O_TRUNC, 0.3 if write else 0.05), (os.O_APPEND, 0.3), (os.O_EXCL, 0.15), (os.O_SYNC, 0.1),
                 (os.O_NOFOLLOW, 0.1), (os.O_NONBLOCK, 0.1), (os.O_DIRECTORY, 0.02)):
        if rng.random() < p:
            f |= x
    if f & os.O_DIRECTORY:
        f &= ~os.O_CREAT
    return f


def chain(rng, tier):
    g = gen.Gen(rng)
    dirs = ["", "sub", "sub/deep"]
    free = {d: list(NAMES) for d in dirs}
    for d in dirs:
        rng.shuffle(free[d])
    pre = {}
    n = rng.choice([1, 1, 1, 2, 2, 3])
    cmds = []
    nodes = []
    shadowed = 0

    def target(cwd, write, form):
        """A file of its own: (JSON target, path as opened)"""
        d = cwd if rng.random() < 0.6 else rng.choice(dirs)
        name = free[d].pop()
        if rng.random() < 0.6:
            content = rng.choice([b"", b"old\n", b"old content that is longer than what is written\n" * rng.choice([1, 3]), g.bytestr(20)])
            pre[os.path.join(d, name)] = ["file", content.hex(), rng.choice([0o644, 0o644, 0o600, 0o666, 0o444, 0o200, 0o755, 0])]
            if rng.random() < 0.1:
                l = free[d].pop()
                pre[os.path.join(d, l)] = ["link", name, 0]
                name = l
        elif rng.random() < 0.05:
            pre[os.path.join(d, name)] = ["dir", "", 0]
        if d == cwd and rng.random() < 0.7:
            path = name if rng.random() < 0.8 else "./" + name
        elif rng.random() < 0.4:
            path = os.path.relpath(os.path.join("/", d, name), os.path.join("/", cwd))
        else:
            path = "@W/" + os.path.join(d, name)
        if rng.random() < 0.05:
            path = "@W/nodir/" + name
        js = path.replace("@W", "@D")
        t = rng.choice(["str", "str", "bytes", "path", "pure"])
        if t != "str":
            js = {t: js}
            if t != "bytes" and path.startswith("./"):
                path = path[2:]
        return js, path

    for i in range(n):
        id = g.id("C")
        cwd = rng.choice(dirs)
        argv = ["vh", "nop:" + id, "dump:@W/../dump_@X_" + id]
        reds = []
        # From the innermost out; only the first of each is in effect
        fds = [rng.choice([0, 1, 2, 3, 4, 7, 9]) for x in range(rng.choice([1, 1, 2, 3, 5]))]
        eff = {}
        for fd in fds:
            write = fd not in (0,) and (fd in (1, 2) or rng.random() < 0.6)
            form = rng.choice({0: ["obj", "<", "ror", "rorobj"], 1: ["obj", "|", ">", "rorobj"]}.get(fd, ["obj", "rorobj"]))
            js, path = target(cwd, write, form)
            r = {"fd": {0: "stdin", 1: "stdout", 2: "stderr"}[fd] if fd < 3 and rng.random() < 0.5 else fd, "to": js, "form": form}
            fl, mode = os.O_RDONLY if fd == 0 else os.O_WRONLY | os.O_CREAT, 0o777
            if form in ("obj", "rorobj"):
                if fd > 2 or rng.random() < 0.5:
                    fl = r["flag"] = flags(rng, write)
                if rng.random() < 0.5:
                    mode = r["mode"] = rng.choice([0o777, 0o666, 0o600, 0o644, 0o400, 0o755, 0, 0o7777, 0o222])
            elif rng.random() < 0.1:
                r["to"] = None
                path = "/dev/null"
            if fd in eff:
                shadowed += 1
            else:
                eff[fd] = (path, fl, mode)
            reds.append(r)
        for fd, (path, fl, mode) in sorted(eff.items()):
            acc = fl & (os.O_WRONLY | os.O_RDWR)
            if fd > 2 and acc != os.O_WRONLY and not fl & (os.O_TRUNC | os.O_DIRECTORY) and path != "/dev/null":
                argv.append("rf:%d" % fd)
            if fd not in (0,) and acc and fd != 1:
                argv.append("wf:%d:%s" % (fd, ("%s writes %d\n" % (id, fd)).encode().hex()))
        if i or 0 in eff:
            argv.append("cat" if rng.random() < 0.8 else "head:5")
        argv.append("w:" + ("%s says this\n" % id).encode().hex())
        node = ["c", [a.replace("@W", "@D").replace("@X", "A") for a in argv], {"style": 0, "env": cwd or "."}]
        for r in reds:
            node = ["r", node, r]
        cmds.append({"argv": [a.replace("@X", "B") for a in argv], "cwd": cwd, "redirects": [[fd, p, fl, m] for fd, (p, fl, m) in eff.items()]})
        nodes.append(node)
        last = eff
    node = g.pipe(nodes)
    # Of the whole
    if rng.random() < 0.35:
        cwd = cmds[-1]["cwd"]
        js, path = target(cwd, True, None)
        if not path.startswith("@W"):
            js, path = "@D/whole", "@W/whole"
        form = rng.choice(["obj", "|", ">"])
        r = {"fd": "stdout", "to": js, "form": form}
        fl = os.O_WRONLY | os.O_CREAT
        if form == "obj" and rng.random() < 0.5:
            fl = r["flag"] = flags(rng, True)
        node = ["r", node, r]
        if 1 in eff:
            shadowed += 1
        else:
            cmds[-1]["redirects"].append([1, path, fl, 0o777])
    first = {r[0] for r in cmds[0]["redirects"]}
    if rng.random() < 0.25:
        js, path = "@D/from", "@W/from"
        if rng.random() < 0.9:
            pre["from"] = ["file", b"from this file\n".hex(), 0o644]
        node = ["r", node, {"fd": "stdin", "to": js, "form": rng.choice(["obj", "<", "ror"])}]
        if 0 in first:
            shadowed += 1
        else:
            cmds[0]["redirects"].append([0, path, os.O_RDONLY, 0o777])
            if cmds[0]["argv"][-2] not in ("cat", "head:5"):
                pass
    # What one does not redirect and the one before it does
    for i in range(n - 1):
        if any(r[0] == 1 for r in cmds[i]["redirects"]) or any(r[0] == 0 for r in cmds[i + 1]["redirects"]):
            continue
    p = {"node": node, "cmds": cmds, "pre": pre, "dirs": dirs, "umask": rng.choice([0o022, 0o022, 0, 0o077, 0o027, 0o002]),
         "runs": rng.choice([1, 1, 2, 3]), "way": rng.choice(["seq", "ri"])}
    return {"scn": "redirs", "p": p, "delays": {k: v for k, v in g.delays().items() if k != "short"}, "cfg": g.cfg(), "shadowed": shadowed}


def shared(rng, tier):
    g = gen.Gen(rng)
    kind = rng.choice(["group", "group", "group", "pipeerr", "args", "nested"])
    tags = []

    def lines(fd):
        tag = g.id("T")
        n = rng.choice([1, 5, 40])
        tags.append([tag, n])
        if fd == 1:
            return g.cmd(["gl:%s:%d:%d:%d" % (tag, n, 10, rng.choice([0, 0, 200]))])
        ops = []
        for k in range(n):
            ops.append(("e:" if fd == 2 else "wf:%d:" % fd) + model.gl(tag, n, 10).split(b"\n")[k].hex() + "0a")
        return g.cmd(ops + (["drain"] if rng.random() < 0.5 else []))
    flag = os.O_WRONLY | os.O_CREAT
    if rng.random() < 0.4:
        flag |= rng.choice([os.O_APPEND, os.O_TRUNC])
    if kind == "group":
        fd = rng.choice([1, 1, 2, 5])
        node = ["+", lines(fd), lines(fd)]
        if rng.random() < 0.4:
            node = ["+", node, lines(fd)]
    elif kind == "pipeerr":
        fd = rng.choice([2, 6])
        node = g.pipe([lines(fd) for i in range(rng.choice([2, 3]))])
    elif kind == "args":
        fd = rng.choice([2, 8])
        c = lines(fd)
        c[1].append("args")
        c[1] += [{"n": lines(fd)} if rng.random() < 0.5 else {"kw": {"file": {"n": lines(fd)}}} for i in range(rng.choice([1, 2]))]
        node = c
    else:
        fd = 2
        node = ["+", ["|", lines(2), lines(2)], lines(2)]
        if rng.random() < 0.5:
            node = ["|", node, lines(2)]
    name = g.id("file")
    form = rng.choice(["obj", "|", ">"]) if fd == 1 and flag == os.O_WRONLY | os.O_CREAT else "obj"
    r = {"fd": fd, "to": rng.choice([name, "@D/" + name]), "form": form}
    if form == "obj":
        r["flag"] = flag
    pre = rng.choice([None, None, "", b"old\n".hex(), (b"old content\n" * 600).hex()])
    return {"scn": "shared", "p": {"node": ["r", node, r], "pre": pre, "name": name, "runs": rng.choice([1, 1, 2])},
            "delays": {k: v for k, v in g.delays().items() if k != "short"}, "cfg": g.cfg(), "tags": tags, "flag": flag}


def cases(rng, tier):
    while True:
        yield shared(rng, tier) if rng.random() < 0.2 else chain(rng, tier)


def judge_shared(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    j.check("failed" not in obs, "failed", "failed: %s" % obs.get("failed"))
    got = J.load(workdir, obs["file"])
    runs = p["runs"]
    old = bytes.fromhex(p["pre"]) if p["pre"] else b""
    all = model.Out(*[model.gl(t, n, 10) for t, n in case["tags"]])
    size = sum(len(x) for x in all.parts)
    if case["flag"] & os.O_APPEND:
        want = [old, runs, b""]
    elif case["flag"] & os.O_TRUNC:
        want = [b"", 1, b""]
    else:
        want = [b"", 1, old[size:]]
    j.eq(len(got), len(want[0]) + want[1] * size + len(want[2]), "shared", "size of the file")
    j.check(got.startswith(want[0]) and got.endswith(want[2]), "shared", "what was in the file before has changed")
    body = got[len(want[0]):len(got) - len(want[2])]
    for i in range(want[1]):
        err = model.check_out(body[i * size:(i + 1) * size], all)
        if err:
            j.fail("shared", "written by several: " + err)
    j.count("shared files")
    j.count("bytes compared", len(got))
    j.nontrivial()


def judge(case, res, j, workdir):
    if case["scn"] == "shared":
        return judge_shared(case, res, j, workdir)
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    j.check(obs["built"], "when", "files were touched when the pipeline was built")
    n = sum(len(c["redirects"]) for c in p["cmds"])
    j.count("redirects", n * p["runs"])
    j.count("redirects not in effect", case["shadowed"])
    unsure = set()
    ok = True
    for run, (got, want) in enumerate(zip(obs["codes"], obs["want"])):
        if not j.eq(len(got), len(want), "parts", "number of processes"):
            return
        for i, (c, g, w) in enumerate(zip(p["cmds"], got, want)):
            if g == 74 and i < len(want) - 1 and w == [0]:
                # Nobody reads what it writes
                w = [74]
            ok &= j.check(g in w, "status", lambda: "run %d: %s ended with %s, started with os.open() with %s; %s" % (run, c["argv"][1], g, w, obs["err"]))
            j.count("opens that fail", w != [0])
            if w != [0]:
                for fd, path, fl, mode in c["redirects"]:
                    # In which order the others are opened is not said
                    unsure.add(os.path.normpath(path if path.startswith("@W") else os.path.join("@W", c["cwd"], path)).replace("@W/", ""))
    if not ok:
        return
    for name, e in p["pre"].items():
        if e[0] == "link" and name in unsure:
            unsure.add(os.path.join(os.path.dirname(name), e[1]))
    for name in set(obs["A"]) | set(obs["B"]):
        if name in unsure:
            continue
        a, b = obs["A"].get(name), obs["B"].get(name)
        if not a or not b:
            j.fail("files", "%s %s" % (name, "was not created" if b else "was created, but should not have been"))
            continue
        j.count("files compared")
        j.eq(oct(a["mode"]), oct(b["mode"]), "mode", "mode of " + name)
        if "content" in a:
            j.eq(bytes.fromhex(a["content"]), bytes.fromhex(b["content"]), "content", "content of %s (%s)" % (name, [c["redirects"] for c in p["cmds"]]))
        if name in obs["before"] and "ino" in a:
            j.eq(a["ino"], obs["before"][name]["ino"], "replaced", "inode of " + name)
    if not unsure:
        j.eq(J.load(workdir, obs["out"]), J.load(workdir, obs["ref"]), "out", "standard out")
    for name, a in obs["dumps"].items():
        if name.startswith("dump_A"):
            b = obs["dumps"].get(name.replace("_A_", "_B_"))
            c = [c for c in p["cmds"] if c["argv"][1] == "nop:" + name[7:]][0]
            for fd, path, fl, mode in c["redirects"]:
                if b is not None:
                    j.eq(a.get(str(fd)), b.get(str(fd)), "flags", "flags of descriptor %d" % fd)
                    j.count("flags compared")
    j.nontrivial()
