"""C32: logging changes nothing"""
import importlib
import re
from .. import gen, judge as J

RULE = ("The cases of C01, C02, C03, C05, C06, C08, C09, C16, C25 with a random selection of the kinds of events logged, or none, to a file or to a pipe which nobody reads: "
        "what these properties say is checked as there, and that the log has records of these kinds and the processes there were only - none, if none were asked for -, "
        "with one for each command started, and one for each end of a process; commands in directories and with files and arguments of odd names; CTRL-C then; and "
        "pieshell --log=..., also with standard out gone; non-trivial as there, or if something was logged, distinct likewise")
QUICK = {"cases": 600, "budget": 35}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"records": 5000, "commands logged": 150, "ends logged": 100, "logs gone": 60, "logs empty": 30, "odd names": 60, "CTRL-C with odd names": 15, "pieshell --log": 20}
ASSUMPTIONS = ["What is logged to takes what is written or refuses it; waiting for it is no part of this"]
TIMEOUT = 40
KINDS = ["io", "ioevent", "ioreg", "fd", "cmd", "signalreg", "signal"]
OF = ["c01", "c02", "c03", "c05", "c06", "c08", "c09", "c16", "c25"]
RECORD = re.compile(rb"^(\d+):([A-Z]+):([a-z]+):(.*)$")


def module(name):
    return importlib.import_module("vf.props." + name)


def kinds(r):
    k = r.random()
    if k < 0.15:
        return []
    if k < 0.4:
        return list(KINDS)
    return r.sample(KINDS, r.choice([1, 1, 2, 4]))


def odd(rng):
    r = rng
    names = ["\udcff\udcfe", "é", "a b", "x\ny", "%s", "%(x)s", "a\udcc3", "'\"", "\\x", "\x1b[0m", "日本", "x" * 200, "\x7f\x01"]
    return {"scn": "odd", "p": {"name": r.choice(names).encode("utf-8", "surrogateescape").hex(),
                                "args": [r.choice(names + ["plain", "", "-x"]).encode("utf-8", "surrogateescape").hex() for i in range(r.choice([0, 1, 3]))],
                                "on": kinds(r), "dest": r.choice(["file", "file", "gone"]), "cancel": r.random() < 0.5, "backslash": False}, "cfg": gen.Gen(rng).cfg(0.3)}


def line(rng):
    r = rng
    where = r.choice(["file", "file", "gone"])
    # What commands write can not be written then
    kinds_of = ["echo('out%d')", "sh('-c', 'echo out%d; echo err >&2')", "(echo('out%d') | cat)"] if where == "file" else []
    cmds = [r.choice(kinds_of + ["sh('-c', 'echo out%d >> made')", "(sh('-c', 'cat >> made; echo out%d >> made') | cat)"]) % i for i in range(r.choice([1, 2, 3]))]
    return {"scn": "line", "p": {"on": kinds(r), "cmds": cmds + ["sh('-c', 'echo end >> made')"], "where": where}}


def one(rng, tier):
    r = rng
    k = r.random()
    if k < 0.2:
        return odd(rng)
    if k < 0.27:
        return line(rng)
    of = r.choice(OF)
    c = next(module(of).cases(rng, tier))
    if of == "c06":
        c["p"].pop("log", None) # Which would turn some off
    return dict(c, scn="logged", p={"of": of, "scn": c["scn"], "p": c["p"], "on": kinds(r), "dest": r.choice(["file", "file", "file", "gone"])})


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def check_log(j, data, on, pids, forked, at):
    n = {}
    for l in data.split(b"\n"):
        m = RECORD.match(l)
        if not m or m.group(3).decode() not in KINDS + ["error"]:
            continue
        kind = m.group(3).decode()
        j.count("records")
        n.setdefault(kind, []).append((int(m.group(1)), m.group(4)))
    if not on:
        j.count("logs empty")
    j.check(set(n) <= set(on) | {"error"}, "log", lambda: at + "records of kinds %s, with %s turned on" % (sorted(n), on))
    if pids is not None:
        j.check({p for k in n for p, m in n[k]} <= pids, "log", lambda: at + "records of processes %s, there are only %s" % ({p for k in n for p, m in n[k]}, pids))
    return n


def judge_line(case, res, j):
    p = case["p"]
    obs = res["obs"]
    want = []
    made = []
    for c in p["cmds"]:
        m = re.search(r"out\d|end", c).group(0)
        (made if ">> made" in c else want).append(m)
    j.eq(obs["made"], "".join(x + "\n" for x in made), "line", "written by commands, with --log=%s to %s; %s" % (p["on"], p["where"], obs["err"]))
    if p["where"] != "gone":
        out = bytes.fromhex(obs["out"])
        n = check_log(j, out, p["on"], None, 0, "pieshell --log: ")
        j.eq([l for l in out.decode().split("\n") if l in want], want, "line", "output of commands")
        if not p["on"]:
            j.eq(out.decode(), "".join(x + "\n" for x in want), "line", "output")
        if "cmd" in p["on"]:
            j.check(len([1 for x, m in n.get("cmd", []) if b"Command line" in m]) >= len(p["cmds"]), "log", "commands are missing in the log")
    j.eq(obs["code"], 0, "line", "status with --log=%s to %s; %s" % (p["on"], p["where"], obs["err"]))
    j.count("pieshell --log")
    j.nontrivial([p])


def judge_odd(case, res, j):
    p = case["p"]
    o = res["obs"]["odd"]
    want = b"".join(bytes.fromhex(a) + b"\0" for a in p["args"])
    lines = want.split(b"\n")
    if lines[-1] == b"":
        lines.pop()
    at = "with %s logged to %s: " % (p["on"], p["dest"])
    j.eq([bytes.fromhex(x) for x in o["shown"]], lines, "odd", at + "arguments")
    j.eq([bytes.fromhex(x) for x in o["got"]], lines, "odd", at + "input of a function")
    j.eq(bytes.fromhex(o["file"]), want, "odd", at + "the file")
    j.eq(o["failed"], [3], "odd", at + "the status of a command")
    if p["cancel"]:
        j.eq(o["repr"], "", "odd", at + "canceled")
        j.count("CTRL-C with odd names")
    j.count("odd names")


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    if case["scn"] == "line":
        J.observed(j, res)
        judge_line(case, res, j)
        return
    at = ""
    if case["scn"] == "odd":
        J.observed(j, res)
        judge_odd(case, res, j)
    else:
        at = "a case of %s: " % p["of"].upper()
        module(p["of"]).judge(dict(case, scn=p["scn"], p=p["p"]), dict(res, obs=obs["inner"]), j, workdir)
        j.count("cases of " + p["of"].upper())
    if obs["log"] is None:
        j.count("logs gone")
        return
    data = J.load(workdir, obs["log"])
    forked = obs["forked"]
    n = check_log(j, data, p["on"], set(forked) | {obs["main"]}, forked, at)
    if "cmd" in p["on"]:
        cmds = sorted(int(m.group(1)) for x, t in n.get("cmd", []) for m in [re.match(rb" *(\d+): Command line ", t)] if m)
        j.eq(cmds, sorted(forked), "log", at + "commands in the log")
        j.count("commands logged", len(cmds))
    if "signal" in p["on"]:
        ends = [int(t.split()[1]) for x, t in n.get("signal", []) if t.startswith(b"EXIT ")]
        j.check(len(ends) == len(set(ends)), "log", at + "processes ended more than once")
        j.check(set(ends) <= set(forked), "log", at + "others ended")
        j.count("ends logged", len(ends))
    if not p["on"] and "error" not in n:
        j.eq(data[:500], b"", "log", at + "log")
    if n and case["scn"] == "odd":
        j.nontrivial([p])
