"""C29: commands start with the process state of the shell, and signals that work"""
import signal

from .. import gen, model, judge as J

RULE = ("Random pipelines, groups, arguments, functions and subshells run in all ways in a shell with random umask, soft limits, signals ignored, handled "
        "and blocked, after others that were stopped, failed or are running; and pieshell started with signals ignored or blocked, niced, in sessions and "
        "process groups of its own, running scripts; the state each command finds itself in - signals blocked and ignored, umask, limits, priority, group, "
        "session, parent - is compared with that of the shell, or of a program started as the shell was; writers nobody reads from, which ignore errors, have to end by "
        "SIGPIPE, and parents waiting for SIGCHLD have to get it; non-trivial if a state was compared, distinct by description")
QUICK = {"cases": 420, "budget": 25}
THOROUGH = {"cases": 40000, "budget": 400}
TIMEOUT = 45
REQUIRED = {"states compared": 500, "ended by SIGPIPE": 25, "children waited for": 40, "shells started": 12, "ignored by the shell": 40, "blocked by the shell": 40,
            "states in subshells": 20}
ASSUMPTIONS = ["PyPy handles SIGINT even if it was ignored when it was started; only the shell's own code ignoring it is judged", "SIGTSTP may be blocked: the shell stops what is waited for on CTRL-Z"]
MODES = ["bytes", "list", "iterbytes", "aiter", "+", "+", "~", "await", "run", "ri"]

# Set by Python, and needed by the shell
OWN = {int(signal.SIGPIPE), int(signal.SIGXFSZ), int(signal.SIGCHLD)}
STATE = ["umask", "pgid", "sid", "nice", "CPU", "FSIZE", "DATA", "STACK", "CORE", "NOFILE", "NPROC", "MEMLOCK", "AS"]
SIGNALS = [int(getattr(signal, s)) for s in ("SIGHUP", "SIGQUIT", "SIGTERM", "SIGUSR1", "SIGUSR2", "SIGALRM", "SIGWINCH", "SIGTTOU", "SIGTTIN", "SIGURG", "SIGIO")]


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)
        self.dumped = []
        self.insub = []
        self.sub = 0
        self.chld = 0

    def dcmd(self, first, more=()):
        r = self.rng
        id = self.id("C")
        self.dumped.append(id)
        if self.sub:
            self.insub.append(id)
        args = ["dump:@D/dump_" + id]
        if r.random() < 0.2:
            args.append("chld:%d" % r.choice([0, 1, 10]))
            self.chld += 1
        if not first:
            args.append(r.choice(["cat", "up", "drain"]))
        if r.random() < 0.5:
            args.append("w:" + self.text(5, uni=False).encode().hex())
        return self.cmd(args + list(more), id=id)

    def part(self, first, depth=1):
        r = self.rng
        k = r.random()
        if k < 0.12 and not first:
            return self.function(["id", "up", "num"])
        if k < 0.12 and first:
            return self.iterator(n=2, kinds=["gen", "list", "iterator"], big=False)
        if k < 0.24 and depth:
            c = self.dcmd(first)
            c[1] += ["args", {"n": self.part(True, 0) if r.random() < 0.5 else self.pipe([self.dcmd(True), self.dcmd(False)])}]
            return c
        if k < 0.38 and depth:
            self.sub += 1
            n = self.pipe([self.dcmd(first)] + [self.dcmd(False) for i in range(r.choice([0, 1]))])
            self.sub -= 1
            return ["sub", n, self.id("S")]
        c = self.dcmd(first)
        if r.random() < 0.15:
            c = ["r", c, {"fd": "stderr", "to": {"special": "STRING"}}]
        return c


def instate(rng, tier):
    g = G(rng)
    kind = rng.random()
    pipe = None
    if kind < 0.15:
        # Nobody reads
        w = g.id("C")
        pipe = w
        last = g.cmd([rng.choice(["head:1", "head:3", "nop:", "head:70000"])], id=g.id("H"))
        node = ["|", g.cmd(["asis", "yes"], id=w), last]
        if rng.random() < 0.4:
            # As an argument
            last[1] = [a for a in last[1] if not isinstance(a, str) or a[:4] not in ("head", "nop:")] + ["nop:"]
            node = g.cmd(["x:0", {"n": g.cmd(["asis", "yes"], id=w)}], id=g.id("H"))
    else:
        parts = [g.part(i == 0) for i in range(rng.choice([1, 1, 2, 2, 3]))]
        if not g.dumped:
            parts.append(g.dcmd(False))
        node = g.pipe(parts)
        if rng.random() < 0.15:
            node = ["+", node, g.dcmd(True)]
    sigs = list(SIGNALS)
    rng.shuffle(sigs)
    ignore = sorted(sigs[:rng.choice([0, 0, 1, 2])])
    handle = sorted(sigs[2:2 + rng.choice([0, 0, 1, 2])])
    if rng.random() < 0.15:
        ignore.append(2)
    block = sorted(rng.sample(SIGNALS + [2], rng.choice([0, 0, 1, 2]))) if not (pipe and 2 in ignore) else []
    lims = {n: v for n, v in {"CORE": rng.choice([0, 1 << 20]), "NOFILE": rng.choice([100, 200]), "STACK": 4 << 20, "CPU": 3600, "MEMLOCK": 65536,
                              "FSIZE": 1 << 28}.items() if rng.random() < 0.2}
    p = {"node": node, "mode": rng.choice(["+", "~", "await", "run", "ri", "bytes"] if pipe else MODES), "umask": rng.choice([0o022, 0o022, 0, 0o077, 0o027]),
         "ignore": ignore, "handle": handle, "block": block, "lims": lims,
         "before": rng.sample(["stop", "fail", "nostart", "run", "background"], rng.choice([0, 0, 1, 2]))}
    delays = {k: v for k, v in g.delays().items() if k in ("fork", "child")}
    return {"scn": "state", "p": p, "delays": delays, "cfg": g.cfg(0.3), "dumped": g.dumped, "insub": g.insub, "pipe": pipe, "chld": g.chld}


LINES = [
    "+env.vh('dump:@D/dump_%s')",
    "print(repr(str(env.vh('dump:@D/dump_%s', 'w:6869'))))",
    "print(repr(str(env.vh('w:6869') | env.vh('dump:@D/dump_%s', 'cat'))))",
    "for l in env.vh('dump:@D/dump_%s', 'w:680a690a'): print(l)",
    "env.vh('dump:@D/dump_%s').run_interactive()",
    "+env.vh('args', env.vh('dump:@D/dump_%s'))",
    "+(['a', 'b'] | env.vh('dump:@D/dump_%s', 'drain'))" if False else "+env.vh('dump:@D/dump_%s', 'chld:5')",
    "+env.subshell(env.vh('dump:@D/dump_%s'))",
]


def start(rng, tier):
    g = G(rng)
    n = rng.choice([1, 2, 3])
    script = ["from pieshell import env"] if rng.random() < 0.3 else ["from pieshell import *"]
    dumped = []
    insub = []
    for i in range(n):
        id = g.id("C")
        l = rng.choice(LINES)
        dumped.append(id)
        if "subshell" in l:
            insub.append(id)
        script.append(l % id)
    script.append("print('end')")
    sigs = rng.sample(SIGNALS, rng.choice([0, 1, 2]))
    if rng.random() < 0.3:
        sigs.append(int(signal.SIGCHLD))
    lims = {n: v for n, v in {"CORE": 0, "NOFILE": 200, "STACK": 4 << 20, "CPU": 3600}.items() if rng.random() < 0.2}
    p = {"script": "\n".join(script) + "\n", "args": ["@D/script.pysh"], "umask": rng.choice([0o022, 0o077, 0o002]), "ignore": sorted(sigs),
         "block": sorted(rng.sample(SIGNALS, rng.choice([0, 0, 1]))), "lims": lims, "session": rng.choice([None, None, "sid", "pgid"]), "nice": rng.choice([0, 0, 3])}
    return {"scn": "started", "p": p, "dumped": dumped, "insub": insub}


def cases(rng, tier):
    while True:
        yield start(rng, tier) if rng.random() < 0.06 else instate(rng, tier)


def compare(j, id, got, want, ign, blk, insub, pid):
    for n in STATE:
        j.eq(got[n], want[n], "state", "%s of %s" % (n, id))
    j.eq(sorted(set(got["ign"]) - {0}), ign, "ignored", "signals ignored by " + id)
    j.eq(sorted(set(got["blk"]) - {0, int(signal.SIGTSTP)}), blk, "blocked", "signals blocked in " + id)
    if insub:
        j.check(got["ppid"] != pid, "parent", "%s is not a child of a subshell" % id)
        j.count("states in subshells")
    else:
        j.eq(got["ppid"], pid, "parent", "parent of " + id)
    j.count("states compared")
    j.nontrivial()


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    if case["scn"] == "started":
        ref = obs["dumps"].pop("ref")
        if not j.eq(obs["code"], 0, "started", "exit code of pieshell; %s" % obs["err"]):
            return
        j.check(obs["out"].endswith("end\n"), "started", "the script did not get to its end: %s" % obs["err"])
        if not j.eq(sorted(obs["dumps"]), sorted(case["dumped"]), "started", "commands run by the script; %s" % obs["err"]):
            return
        for id, d in obs["dumps"].items():
            want = dict(ref)
            if p["session"] in ("sid", "pgid"):
                want["pgid"] = obs["pid"]
                want["sid"] = obs["pid"] if p["session"] == "sid" else ref["sid"]
            compare(j, id, d, want, sorted(set(ref["ign"]) - OWN - {0}), sorted(set(ref["blk"]) - {0}), id in case["insub"], obs["pid"])
        j.count("shells started")
        j.count("started with SIGCHLD ignored", int(signal.SIGCHLD) in p["ignore"])
        return
    J.observed(j, res)
    sh = obs["shell"]
    after = obs["shell after"]
    for n in sh:
        j.eq(after[n], sh[n], "shell", "%s of the shell afterwards" % n)
    if case["pipe"]:
        e = obs.get("exc")
        rp = e.get("pipeline") if e else obs.get("rp")
        j.check(bool(e), "sigpipe", "a writer nobody reads from ended without failure")
        if rp:
            codes = {x["id"]: x.get("code") for x in rp["parts"]}
            j.eq(codes.get(case["pipe"]), int(signal.SIGPIPE), "sigpipe", "how a writer that nobody reads from ended")
        if rp or p["mode"] == "bytes":
            j.count("ended by SIGPIPE")
        j.nontrivial()
        return
    J.expect_ok(j, res)
    if not j.eq(sorted(obs["dumps"]), sorted(case["dumped"]), "state", "commands run"):
        return
    for id, d in obs["dumps"].items():
        compare(j, id, d, sh, sorted(set(sh["ign"]) - OWN), sorted(set(sh["blk"]) - OWN - {int(signal.SIGTSTP)}), id in case["insub"], obs["pid"])
    j.count("children waited for", case["chld"])
    j.count("ignored by the shell", len(p["ignore"]))
    j.count("blocked by the shell", len(p["block"]))
    J.check_conserved(j, res)
