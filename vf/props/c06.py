"""C06: a command has exactly the descriptors its redirects declare"""
import os
import stat

from .. import gen, model, judge as J

RULE = ("Random pipelines, groups, nested pipeline/iterator/function arguments and Python parts, with redirects (files, /dev/null, TMP, STRING, "
        "shell descriptors, of 0-12 and up to 200; swapped, duplicated, overlapping), in a shell with other files, pipes, sockets and "
        "directories open at low, high and colliding numbers, inheritable or not, with soft limits of 128-4096 also changed at run time; the descriptor table "
        "every command sees in itself (numbers, inodes, access modes and flags) is compared with one computed from the description; and PIPE redirects of up to 4 descriptors "
        "of each of 1-3 commands, either direction, the other ends of which are used by hand; "
        "non-trivial if a table was compared, distinct by description")
QUICK = {"cases": 700, "budget": 25}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"tables compared": 1200, "redirects compared": 600, "argument pipes compared": 60, "swaps": 20, "pipes connected by hand": 40}
ASSUMPTIONS = ["Numbers are below the soft limit of open files by at least the number of redirects"]
MODES = ["bytes", "list", "iterbytes", "+", "+", "ri", "await"]
ACC = os.O_RDONLY | os.O_WRONLY | os.O_RDWR
CMPFLAGS = ACC | os.O_APPEND | os.O_NONBLOCK | os.O_SYNC | os.O_DSYNC
LARGEFILE = 0o100000


class G(gen.Gen):
    def __init__(self, rng, limit):
        gen.Gen.__init__(self, rng)
        self.opens = {}
        self.limit = limit

    def dcmd(self, extra=()):
        id = self.id("C")
        return self.cmd(["dump:@D/dump_" + id] + list(extra), id=id)

    def arg(self, depth):
        r = self.rng
        k = r.random()
        if k < 0.25:
            return {"n": self.iterator(n=2, kinds=["gen", "list", "tuple", "iterator"], big=False)}
        if k < 0.4:
            return {"n": ["fn", "sink", {"style": "agen"}, self.id("F")]}
        if k < 0.65 and depth:
            return {"n": self.command(depth - 1)}
        if k < 0.8:
            n = ["|", self.dcmd(["w:61"]), self.dcmd(["drain"])]
            return {"n": n}
        n = self.dcmd(["w:61"])
        if r.random() < 0.3:
            n = self.redirect(n)
        return {"n": n}

    def command(self, depth=1):
        r = self.rng
        c = self.dcmd()
        if r.random() < 0.3:
            for i in range(r.choice([1, 1, 2, 3])):
                a = self.arg(depth)
                if a["n"][0] == "fn":
                    c[1] += ["mix", "out:61", a]
                else:
                    c[1] += ["args", a]
                break
            if r.random() < 0.5 and c[1][2 + 1] == "args":
                c[1] += [self.arg0(depth) for i in range(r.choice([1, 2]))]
        elif r.random() < 0.3:
            c[1].append("drain")
        return c

    def arg0(self, depth):
        while True:
            a = self.arg(depth)
            if a["n"][0] != "fn":
                return a

    def open(self, flags=None, at=None):
        r = self.rng
        name = self.id("o")
        self.opens[name] = {"path": name, "flags": r.choice([os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_APPEND])
                            if flags is None else flags, "at": at, "inh": r.random() < 0.5}
        return name

    def redirect(self, n, fd=None):
        r = self.rng
        if fd is None:
            fd = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, r.randrange(13, min(200, self.limit - 30))])
        flag = {0: os.O_RDONLY, 1: os.O_WRONLY | os.O_CREAT, 2: os.O_WRONLY | os.O_CREAT}.get(fd, r.choice(
            [os.O_WRONLY | os.O_CREAT, os.O_RDWR | os.O_CREAT, os.O_RDONLY | os.O_CREAT, os.O_WRONLY | os.O_CREAT | os.O_APPEND]))
        k = r.random()
        if k < 0.45:
            to = self.id("file")
            if fd == 0:
                flag |= os.O_CREAT
        elif k < 0.55:
            to = "/dev/null"
        elif k < 0.65 and fd != 0:
            to = {"special": r.choice(["TMP", "STRING"])}
            flag = os.O_WRONLY | os.O_CREAT
        else:
            at = r.choice([None, None, r.randrange(13, min(200, self.limit - 30))])
            name = r.choice(sorted(self.opens)) if self.opens and r.random() < 0.3 else self.open(at=at)
            return ["r", n, {"fd": fd, "to": {"fd": name}, "borrowed": True, "flag": self.opens[name]["flags"]}]
        return ["r", n, {"fd": fd, "to": to, "flag": flag}]

    def swap(self, n):
        """Redirects of which the targets are the sources of others"""
        r = self.rng
        k = r.choice([2, 2, 3, 4])
        at = r.sample(range(20, 50), k)
        names = [self.open(at=a, flags=os.O_RDWR) for a in at]
        to = at[1:] + at[:1] if r.random() < 0.7 else r.sample(at, k)
        for name, fd in zip(names, to):
            n = ["r", n, {"fd": fd, "to": {"fd": name}, "borrowed": True, "flag": os.O_RDWR}]
        if r.random() < 0.5:    # and duplicated
            n = ["r", n, {"fd": r.choice([2, 60, 61]), "to": {"fd": names[0]}, "borrowed": True, "flag": os.O_RDWR}]
        return n

    def part(self, first):
        r = self.rng
        k = r.random()
        if k < 0.12 and not first:
            return self.function(["id", "up", "sink"])
        c = self.command()
        k = r.random()
        if k < 0.15:
            self.swaps = True
            c = self.swap(c)
        elif k < 0.6:
            for i in range(r.choice([1, 1, 2, 3, 5])):
                c = self.redirect(c)
        return c


def one(rng, tier):
    nofile = rng.choice([128, 256, 256, 256, 1024, 4096])
    g = G(rng, nofile)
    g.swaps = False
    n = rng.choice([1, 1, 2, 2, 3, 4])
    node = g.pipe([g.part(i == 0) for i in range(n)])
    if rng.random() < 0.2:
        node = ["+", node, g.part(True)]
        if rng.random() < 0.4:
            node = ["|", node, g.part(False)]
    if rng.random() < 0.3:
        for i in range(rng.choice([1, 2])):
            node = g.redirect(node, rng.choice([0, 2, 3, 5, 9]))
    cfg = g.cfg()
    p = {"node": node, "mode": rng.choice(MODES), "opens": g.opens, "extra": []}
    soft = None
    if rng.random() < 0.15:
        cfg["nofile_hard"] = nofile * 2
        p["soft"] = soft = nofile * 2
    cfg["nofile"] = nofile
    for i in range(rng.choice([0, 0, 1, 3, 6])):
        e = {"kind": rng.choice(["file", "pipe", "dir", "socket"]), "inh": rng.random() < 0.7}
        if rng.random() < 0.5 and e["kind"] in ("file", "dir"):
            e["at"] = rng.choice([rng.randrange(13, nofile - 20), nofile - 2, nofile - 3, (soft or nofile) - 2])
        p["extra"].append(e)
    if rng.random() < 0.1:
        p["log"] = True
    # High numbers need room for more
    return {"scn": "fds", "p": p, "delays": {k: v for k, v in g.delays().items() if k != "short"}, "cfg": cfg, "swaps": g.swaps}


def ends(rng, tier):
    """Commands with PIPE redirects that are connected by hand"""
    g = gen.Gen(rng)
    n = rng.choice([1, 1, 2, 3])
    how = rng.choice(["run", "|"]) if n == 1 else "|"
    pipes = {}
    nodes = []
    for i in range(n):
        id = g.id("C")
        fds = rng.sample(([0] if i == 0 else []) + [2] + list(range(3, 13)), rng.choice([0, 1, 1, 2, 4] if n > 1 else [1, 2, 4]))
        cmd = {}
        for fd in fds:
            # The next has to be read before it's given more than a pipe's worth
            what = "out" if fd == 2 else "in" if fd == 0 else rng.choice(["in", "out"])
            cmd[str(fd)] = [what, rng.randbytes(rng.choice([0, 1, 10, 3000, 20000] + ([300000] if what == "in" else []))).hex()]
        pipes[id] = cmd
        ops = []
        for fd, (what, data) in cmd.items():
            if what == "out" and data:
                ops.append("wf:%s:%s" % (fd, data))
        for fd, (what, data) in cmd.items():
            if what == "in":
                ops.append("rf:%s" % fd)
        if i:
            ops.append("cat")
        node = g.cmd(ops, id=id)
        if how == "|":
            for fd, (what, data) in cmd.items():
                node = ["r", node, {"fd": int(fd), "to": {"special": "PIPE"}, "flag": os.O_RDONLY if what == "in" else os.O_WRONLY}]
        nodes.append(node)
    return {"scn": "ends", "p": {"node": g.pipe(nodes), "pipes": pipes, "how": how}, "delays": {k: v for k, v in g.delays().items() if k != "short"}, "cfg": g.cfg()}


def cases(rng, tier):
    while True:
        yield one(rng, tier) if rng.random() < 0.93 else ends(rng, tier)


class Eval(object):
    def __init__(self):
        self.n = 0
        self.want = {}      # command -> (table, [argument pipes])
        self.nargs = 0

    def new(self):
        self.n += 1
        return self.n

    def make(self, table):
        """Pipes and temporary files are made here"""
        return {fd: (spec[0][:-1], self.new(), spec[2]) if spec[0].endswith("?") else spec for fd, spec in table.items()}

    def walk(self, node, table):
        k = node[0]
        if k == "c":
            t = self.make(table)
            pipes = []
            for a in model.flat_args(node[1]):
                if not isinstance(a, dict) or "n" not in a:
                    continue
                if a["n"][0] == "fn":
                    e = self.walk(a["n"], dict(t, **{}) | {0: ("pipe?", None, os.O_RDONLY)})
                    pipes.append(("pipe", self.fn_in[1], os.O_WRONLY))
                else:
                    e = self.walk(a["n"], t | {1: ("pipe?", None, os.O_WRONLY)})
                    if e[0] == "pipe":
                        pipes.append(("pipe", e[1], os.O_RDONLY))
                    else:
                        pipes.append(("null", None, os.O_RDONLY))
            self.want[model.cmd_id(node[1])] = (t, pipes)
            return t[1]
        if k in ("it", "fn"):
            t = self.make(table)
            self.fn_in = t[0]
            return t[1]
        if k == "|":
            e = self.walk(node[1], table | {1: ("pipe?", None, os.O_WRONLY)})
            if e[0] == "pipe":
                s = ("pipe", e[1], os.O_RDONLY)
            else:
                s = ("null", None, os.O_RDONLY)
            return self.walk(node[2], table | {0: s})
        if k == "+":
            t = self.make(table)
            self.walk(node[1], t)
            self.walk(node[2], t)
            return t[1]
        if k == "r":
            r = node[2]
            to = r["to"]
            if to == "/dev/null":
                s = ("null", None, r["flag"])
            elif isinstance(to, str):
                s = ("file", to, r["flag"])
            elif "special" in to:
                s = ("tmp?", None, None)
            else:
                s = ("open", to["fd"], None)
            return self.walk(node[1], table | {r["fd"]: s})
        raise ValueError(k)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    if case["scn"] == "ends":
        out = b""
        for id, cmd in p["pipes"].items():
            out = b"".join(bytes.fromhex(data) for what, data in cmd.values() if what == "in") + out
            for fd, (what, data) in cmd.items():
                end = "%s:%s" % (id, fd)
                j.eq(obs["ends"][end], [os.O_WRONLY if what == "in" else os.O_RDONLY, True], "wrong", "the shell's end of the pipe that is %s of %s (mode, close on exec)" % (fd, id))
                if what == "out":
                    j.eq((obs.get("read") or {}).get(end), data, "wrong", "what was read from the pipe that is %s of %s" % (fd, id))
                j.count("pipes connected by hand")
        if obs.get("exc") != ["did not end"]:
            j.check(not obs.get("exc"), "wrong", "pipes connected by hand: %s" % obs.get("exc"))
            got = bytes.fromhex(obs["out"])
            j.check(got == out, "wrong", lambda: "standard out is %d bytes %r, expected %d bytes %r" % (len(got), got[:200], len(out), out[:200]))
        else:
            j.fail("leak", "no end of file at a pipe connected by hand, with ends %s" % obs["ends"])
        J.check_conserved(j, res, tmp=False)
        j.nontrivial()
        return
    ev = Eval()
    read = p["mode"] in ("bytes", "list", "iterbytes")
    ev.walk(p["node"], {0: ("shell", 0, os.O_RDONLY), 1: ("pipe?", None, os.O_WRONLY) if read else ("shell", 1, None),
                        2: ("tmp?", None, None)})
    if "closed" in obs:
        j.fail("closed", "descriptors the shell had are closed: %s" % obs["closed"])
    dumps = obs["dumps"]
    if not j.check(set(dumps) == set(ev.want), "started", lambda: "commands run are %s, expected %s; %s" % (
            sorted(dumps), sorted(ev.want), str((obs.get("exc") or {}).get("str"))[:1500])):
        return
    ids = {}
    inos = {}

    def same(kind, id, d):
        ino = (d["dev"], d["ino"])
        if ids.setdefault((kind, id), ino) != ino:
            return "another %s than the one it should share" % kind
        if inos.setdefault(ino, (kind, id)) != (kind, id):
            return "a %s that is another's: %s" % (kind, inos[ino])

    def wrong(spec, d, id):
        kind, what, flags = spec
        fl = d["fl"]
        fmt = stat.S_IFMT(d["mode"])
        if d["fdfl"]:
            return "not inherited"
        if kind == "pipe":
            if fmt != stat.S_IFIFO:
                return "not a pipe"
            if fl & ACC != flags:
                return "the wrong end"
            if fl & os.O_NONBLOCK:
                return "not blocking"
            return same("pipe", what, d)
        if kind == "tmp":
            if fmt != stat.S_IFREG or not bytes.fromhex(d["link"]).decode("utf-8", "replace").startswith(obs["tmpdir"] + "/"):
                return "not a temporary file"
            if fl & ACC == os.O_RDONLY:
                return "not for writing"
            return same("temporary file", what, d)
        want = {"shell": lambda: obs["shell"][what], "null": lambda: obs["null"], "file": lambda: obs["files"].get(what),
                "open": lambda: obs["opens"][what]}[kind]()
        if not want or (want["dev"], want["ino"]) != (d["dev"], d["ino"]):
            return "something else"
        if kind == "open":
            flags = want["fl"]
        if flags is not None and (fl ^ flags) & CMPFLAGS:
            return "open with flags %o, not %o" % (fl & CMPFLAGS, flags & CMPFLAGS)

    for id, (table, pipes) in sorted(ev.want.items()):
        got = {int(fd): d for fd, d in dumps[id].items()}

        def desc():
            return "%s has %s; declared were %s and arguments %s; the shell had %s open" % (
                id, {fd: bytes.fromhex(d["link"]).decode("utf-8", "replace") for fd, d in sorted(got.items())}, table, pipes, obs["extra"])
        for fd, spec in table.items():
            if fd not in got:
                j.fail("missing", "%s is not open: %s" % (fd, desc()))
                continue
            w = wrong(spec, got[fd], id)
            j.check(not w, "wrong", lambda: "%s is %s: %s" % (fd, w, desc()))
            if spec[0] in ("file", "open", "null", "tmp"):
                j.count("redirects compared")
        more = {fd: d for fd, d in got.items() if fd not in table}
        left = list(more)
        for spec in pipes:
            for fd in left:
                snap = (dict(ids), dict(inos))
                if not wrong(spec, more[fd], id):
                    left.remove(fd)
                    break
                ids.clear(), ids.update(snap[0])
                inos.clear(), inos.update(snap[1])
            else:
                j.fail("missing", "no descriptor for argument %s: %s" % (spec, desc()))
            j.count("argument pipes compared")
        j.check(not left, "leak", lambda: "%s should not be open: %s" % (left, desc()))
        j.count("tables compared")
    j.maximum("descriptors open in the shell", obs["shellfds"])
    if case["swaps"]:
        j.count("swaps")
    J.check_conserved(j, res, tmp=False)
    if dumps:
        j.nontrivial()
