"""C26: browsing shows the processes there are"""
from .. import gen, judge as J

RULE = ("Random trees of 1-14 processes - programs of equal and unequal names in several directories, equal and unequal command lines, other argv[0]s, names of all kinds "
        "of characters, own groups and sessions, unreadable, stopped, zombies - started by the shell in pipelines and otherwise; looked at through CURRENT, INIT, "
        "PstreeProcess, running pipelines and their parts, login sessions and objects kept from before while processes end between and, injected, before any look of "
        "psutil; everything is compared with /proc; non-trivial if a child was shown, distinct by tree and operations")
QUICK = {"cases": 260, "budget": 45, "batch": 10}
THOROUGH = {"cases": 20000, "budget": 400, "batch": 10}
REQUIRED = {"processes looked at": 300, "children shown": 500, "in groups of equal names": 120, "told apart by pid": 5, "zombies there": 50, "unreadable children": 40,
            "relatives": 80, "without a group leader": 3, "attributes": 25, "ended while looking": 80, "parts of pipelines": 40, "sessions": 30, "looks at INIT": 15}
ASSUMPTIONS = ["Programs are not named like members of the classes of the browser, or like members of psutil.Process that are used in the same look"]

NAMES = ["alpha", "beta", "gamma", "a-b", "a_b", "9lives", "0-lives", "x y", "x.y", "Alpha", "日本", "é", "d/alpha", "d/beta", "a.b.c", "alpha_"]


def one(rng, tier):
    r = rng
    links = r.sample(NAMES, r.choice([1, 1, 2, 3, 6]))
    left = [r.choice([3, 6, 10, 14])]

    def tree(depth):
        left[0] -= 1
        n = {"prog": r.choice(links), "arg0": r.choice(["", "", "", "-alpha", "zzz", "/bin/zzz", "odd name: x"]),
             "extra": ["nop:%d" % r.randint(0, 1) for i in range(r.choice([0, 0, 0, 1, 2]))], "kids": []}
        for k, p in ("sid", 0.1), ("pg", 0.1), ("nodump", 0.12), ("reap", 0.5):
            if r.random() < p:
                n[k] = 1
        if depth < 4:
            while left[0] > 0 and r.random() < [0.9, 0.8, 0.6, 0.4][depth]:
                if n["kids"] and not n["kids"][-1]["kids"] and r.random() < 0.4:
                    left[0] -= 1
                    n["kids"].append(dict(n["kids"][-1]))
                else:
                    n["kids"].append(tree(depth + 1))
        return n
    trees = []
    while left[0] > 0 and len(trees) < r.choice([1, 2, 4]):
        trees.append({"how": r.choice(["fork", "fork", "run", "pipe"]), "root": tree(r.choice([0, 0, 1, 3]))})
    for t in trees:
        if t["how"] != "fork":
            t["root"].pop("sid", None)
    ops = []
    which = lambda: r.choice(["current", "current", r.randint(0, 13), r.randint(0, 13), r.randint(0, 13), r.randint(0, 13)])
    for i in range(r.randint(4, 12)):
        k = r.choice(["look"] * 6 + ["end"] * 4 + ["stop", "rel", "rel", "attr", "race", "race", "keep", "kept", "kept", "part", "part", "users", "missing", "wait", "init"])
        if k == "end":
            ops.append([k, r.randint(0, 13), r.choice(["kill", "file"])])
        elif k == "keep":
            ops.append([k, which(), r.choice("ab")])
        elif k == "kept":
            ops.append([k, r.choice("ab")])
        elif k == "race":
            ops.append([k, which(), r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 5]), r.choice(["dir", "dir", "walk"])])
        elif k == "users":
            ops.append([k, [r.randint(0, 13) for i in range(r.randint(0, 4))]])
        elif k == "missing":
            ops.append([k, which(), r.choice(["alpha_beta", "nosuch", "pid_1"])])
        elif k == "part":
            ops.append([k, r.randint(0, 3)])
        elif k == "init":
            ops.append([r.choice(["look", "look", "rel"]), "init"])
        elif k == "wait":
            ops.append([k])
        elif k == "stop":
            ops.append([k, r.randint(0, 13)])
        else:
            ops.append([k, which()])
    return {"scn": "pstree", "p": {"links": sorted(links), "trees": trees, "ops": ops, "fault": 0}}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def cmdline(v):
    c = v[3]
    if not c:
        return []
    sep = "\0" if c.endswith("\0") else " "
    if c.endswith(sep):
        c = c[:-1]
    res = c.split(sep)
    if sep == "\0" and len(res) == 1 and " " in c:
        res = c.split(" ")
    return res


def keys(pid, v):
    cmd = cmdline(v)
    exe = v[2]
    if exe and exe.endswith(" (deleted)"):
        exe = exe[:-10]
    exe = exe or (cmd or [v[4]])[0]
    return [exe.split("/")[-1], exe, " ".join(cmd), "pid_%d" % pid]


class Unknown(Exception):
    pass


def named(n):
    return "n" + n if n[:1].isdigit() else n


def pids_of(w):
    if not isinstance(w, dict):
        return [w]
    return [x for v in w.values() for x in pids_of(v)]


def group(slugs, procs, level=0):
    """{name: pid or group} of {pid: keys}"""
    res = {}
    for pid, ks in procs.items():
        if ks[level] not in slugs:
            raise Unknown(ks[level])
        n = named(slugs[ks[level]])
        res.setdefault(n, {})[pid] = ks
    return {n: next(iter(g)) if len(g) == 1 else group(slugs, g, level + 1) for n, g in res.items()}


def shown(j, w, depth=0):
    for v in w.values():
        if isinstance(v, dict):
            shown(j, v, depth + 1)
        else:
            j.count("children shown")
            if depth:
                j.count("in groups of equal names")
            if depth == 3:
                j.count("told apart by pid")


def living(snap, pid):
    return {int(c): keys(int(c), v) for c, v in snap.items() if int(c) != pid and v[1] not in "ZX"}


def judge(case, res, j, workdir):
    obs = res["obs"]
    J.observed(j, res)
    slugs = obs["slugs"]
    for i, (op, o) in enumerate(zip(case["p"]["ops"], obs["ops"])):
        k = op[0]
        what = "operation %d %s" % (i, op)
        pid = o.get("pid")
        if k in ("look", "kept") and "walk" in o or k == "part" and "walk" in o:
            before, after = living(o["before"], pid), living(o["after"], pid)
            j.count("processes looked at")
            j.count("zombies there", sum(v[1] == "Z" for c, v in o["before"].items() if int(c) != pid))
            j.count("unreadable children", sum(v[2] is None for c, v in o["before"].items() if int(c) != pid))
            if op[1:] == ["init"]:
                j.count("looks at INIT")
            if op[1:] == ["init"]:
                # Others start and end processes too
                there = set(before) & set(after)
                tops = {x: n for n, w in o["walk"].items() for x in pids_of(w)}
                j.count("children shown", len(there))
                j.eq(sorted(there - set(tops)), [], "children", "%s: children missing" % what)
                j.eq({x: tops[x] for x in tops if x in there}, {x: named(slugs[before[x][0]]) for x in tops if x in there}, "children", "%s: names" % what)
            elif before == after:
                try:
                    exp = group(slugs, before)
                except Unknown as e:
                    j.count("not claimed")
                    continue
                if k == "part" and (not o["running"] or str(pid) not in o["before"]):
                    exp = {}
                shown(j, o["walk"])
                if before:
                    j.nontrivial()
                j.eq(o["walk"], exp, "children", "%s: children of %d" % (what, pid))
            else:
                j.count("changed while looking")
            if k == "part":
                j.count("parts of pipelines")
                names = sorted(named(slugs.get(n, "")) for n in o["procs"])
                if "" not in names and len(set(names)) == len(names):
                    j.eq(o["rp"], names, "parts", "%s: names of the parts" % what)
                    j.eq(sum(o["found"]), 1, "parts", "%s: parts that are the process" % what)
                if o["cmdline"] is not None and str(pid) in o["before"]:
                    j.eq(o["cmdline"], cmdline(o["before"][str(pid)]), "attributes", "%s: command line" % what)
        elif k == "rel" and "rel" in o:
            v, w = o["before"].get(str(pid)), o["after"].get(str(pid))
            if not v or not w or v[:1] + v[5:7] != w[:1] + w[5:7]:
                continue
            j.count("relatives")
            alive = set(o["alive"])
            j.count("without a group leader", v[5] not in alive)
            j.eq(o["rel"], [x if x in alive else None for x in (v[0], v[5], v[6])], "relatives", "%s: parent, group and session leader of %d" % (what, pid))
        elif k == "attr" and "attr" in o:
            v, w = o["before"].get(str(pid)), o["after"].get(str(pid))
            if not v or v != w or op[1] == "current":
                continue
            j.count("attributes")
            a = o["attr"]
            st = {"S": "sleeping", "R": "running", "T": "stopped", "D": "disk-sleep"}.get(v[1])
            j.eq(a[:3], [pid, v[0], cmdline(v)], "attributes", "%s: pid, ppid and command line" % what)
            j.check(a[4] in (st, "sleeping", "running", "disk-sleep"), "attributes", "%s: status %s, is %s" % (what, a[4], v[1]))
            j.eq(a[5:9], [len(v[7]), v[7], v[7][0], len(v[7])], "attributes", "%s: threads" % what)
            j.eq(a[9], [["pid", pid]], "attributes", "%s: as_dict" % what)
            j.check(o["repr"].endswith(" as %d" % pid), "repr", "%s: %s" % (what, o["repr"]))
        elif k == "race" and "ended" in o:
            j.count("ended while looking", len(o["ended"]))
            j.check("exc" not in o, "race", lambda: "%s: %s" % (what, o["exc"]))
            if "exc" in o:
                continue
            before, after = living(o["before"], pid), living(o["after"], pid)
            try:
                if "names" in o:
                    ended = ["pid_%d" % x for x in set(before) - set(after)]
                    lo, hi = set(group(slugs, after)), set(group(slugs, before))
                    j.check(lo <= set(o["names"]), "race", lambda: "%s: names missing: %s of %s" % (what, lo - set(o["names"]), o["names"]))
                    j.check(set(o["names"]) <= hi | set(ended) or not set(after) <= set(before), "race",
                            lambda: "%s: names of nobody: %s" % (what, set(o["names"]) - hi - set(ended)))
                elif set(after) <= set(before):
                    j.check(set(o["leaves"]) <= set(before), "race", lambda: "%s: shows %s, there are %s" % (what, o["leaves"], sorted(before)))
            except Unknown:
                j.count("not claimed")
        elif k == "missing" and "got" in o:
            if not (op[2] == "pid_1"):
                j.eq(o["got"], False, "missing", "%s: has that name" % what)
        elif k == "users" and "walk" in o:
            procs = {}
            for n, x in enumerate(o["pids"]):
                v = o["before"].get(str(x))
                if v is None or v[1] == "Z":
                    break
                procs[x] = None
            if len(procs) != len(o["pids"]):
                continue # The same one twice
            j.count("sessions", len(procs))
            exp = {x: ["u%d" % (n % 2), ["localhost", "1.2.3.4"][n % 3 == 0]] + keys(x, o["before"][str(x)]) for n, x in enumerate(o["pids"])}
            try:
                j.eq(o["walk"], group(slugs, exp), "sessions", "%s: login sessions" % what)
            except Unknown:
                j.count("not claimed")
    J.check_conserved(j, res, tmp=False)
