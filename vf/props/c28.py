"""C28: the shell at a terminal"""
import re

from .. import gen, judge as J

RULE = ("pieshell run at a (pseudo) terminal, with its own line editor and with ptpython, with and without configuration and history, by someone who waits for "
        "the prompt and types 3-12 statements: commands, pipelines, values, assignments, compound statements, failing ones, programs that read the terminal, "
        "changes of directory and of variables, jobs started in the background, stopped with CTRL-Z, continued with fg, bg, fg(job) and stopped again, and "
        "interrupted with CTRL-C, and at last CTRL-D, exit() or SystemExit; what every statement shows, the state of the processes, what ran, in which order and "
        "how often, the directory in the prompt, history and exit code are compared with a model; distinct by what is typed")
QUICK = {"cases": 110, "budget": 70, "batch": 2}
THOROUGH = {"cases": 4000, "budget": 420, "batch": 4}
TIMEOUT = 200
REQUIRED = {"statements typed": 200, "typed in ptpython": 40, "interrupted": 8, "stopped": 10, "continued in the foreground": 6, "continued in the background": 2,
            "programs that read the terminal": 5, "failing statements": 15, "changes of directory": 8, "jobs started in the background": 4}
ASSUMPTIONS = ["Nothing is typed before the prompt is shown, except for what running programs read",
               "CTRL-C and CTRL-Z are typed 0.3 s after the program has started",
               "CTRL-C is not typed while there are jobs in the background, as the terminal sends it to them too"]


def hexed(text):
    return text.encode().hex()


class Session(object):
    def __init__(self, rng, pt):
        self.rng = rng
        self.pt = pt
        self.n = 0
        self.script = []
        self.plan = []
        self.log = []
        self.typed = []
        self.cwd = ["top"]
        self.jobs = []
        self.unknown = False
        self.names = []
        self.exports = {}

    def token(self):
        self.n += 1
        return "T%d." % (1000 + self.n)

    def do(self, what, arg=None, **plan):
        self.script.append([what, arg])
        self.plan.append(plan)

    def type(self, text):
        self.typed.append(text)
        self.do("type", text + "\r")

    def prompt(self, shows=(), kind="other", **kw):
        """shows: [text, least, most]"""
        self.do("prompt", None, shows=[list(s) for s in shows], log=list(self.log), cwd="/".join(self.cwd), kind=kind, **kw)

    def line(self, text, shows=(), kind="other", **kw):
        self.type(text)
        self.prompt(shows, kind, **kw)

    def started(self, t, before="", after=""):
        """A program that says that it has started, and ends when it may"""
        return "vh(%s'pid:%%(VF_TOP)s/p%s', 'ad:%%(VF_LOG)s:%ss', 'wait:%%(VF_TOP)s/g%s', %s'ad:%%(VF_LOG)s:%se')" % (before, t, t, t, after, t)

    def logged(self, t):
        self.log.append(t)
        self.do("log", t)

    def state(self, t, state):
        self.do("state", ["p" + t, state], state=state)

    def statement(self):
        r = self.rng
        t = self.token()
        k = r.choice(["cmd", "cmd", "run", "pipe", "value", "log", "set", "fail", "fail", "failcmd", "read", "int", "int", "stop", "stop", "stop", "back", "job", "cd", "cd",
                      "compound", "function", "list", "export", "tty", "where", "jobs", "many", "held"])
        if k == "cmd":
            self.line("vh('w:%s')" % hexed(t + "\n"), [[t, 1, 1]])
        elif k == "held":
            # Running it is not what makes it an other pipeline
            name = r.choice(["pp", "qq"])
            self.line("%s = vh('w:%s')%s" % (name, hexed(t + "\n"), r.choice(["", " | vh('cat')"])), [[t, 0, 0]])
            for i in range(r.choice([1, 2, 2, 3])):
                if r.random() < 0.2:
                    self.line("'T%%d.' %% %s" % t[1:-1], [["'%s'" % t, 1, 1]])
                self.line(r.choice(["", "", "+"]) + name, [[t, 1, 1]])
        elif k == "run":
            self.line("+vh('w:%s')" % hexed(t + "\n"), [[t, 1, 1]])
        elif k == "pipe":
            self.line("vh('w:%s') | vh('up') | vh('cat')" % hexed(t.lower() + "\n"), [[t, 1, 1]])
        elif k == "value":
            self.line("'T%%d.' %% %s" % t[1:-1], [["'%s'" % t, 1, 1]])
        elif k == "log":
            self.log.append(t)
            self.line("with open(exports['VF_LOG'], 'a') as f_: x_ = f_.write('%s' + chr(10))" % t)
        elif k == "set":
            name = r.choice(["aa", "bb", "cc"])
            self.line("%s = bytes.fromhex('%s').decode()" % (name, hexed(t)), [[t, 0, 0]])
            if r.random() < 0.3:
                self.line("vh('w:%s')" % hexed("x" + t + "\n"), [["x" + t, 1, 1]])
            self.line(name, [["'%s'" % t, 1, 1]])
        elif k == "fail":
            text, shows = r.choice([["1/0", "ZeroDivisionError"], ["x = = 1", "SyntaxError"], ["{}['a']", "KeyError"], ["raise ValueError(%s + 1)" % t[1:-1], "ValueError: %d" % (int(t[1:-1]) + 1)]])
            if text.startswith("x =") and self.pt:
                return # Not accepted
            self.line(text, [[shows, 1, 2] if shows not in text else [shows, 2, 9]], "fail")
        elif k == "failcmd":
            text = r.choice(["vh('e:%s', 'x:3')" % hexed(t + "\n"), "vh('e:%s', 'x:3')|vh('cat')" % hexed(t + "\n"), "+vh('e:%s', 'k:9')" % hexed(t + "\n")])
            self.line(text, [[t, 1, 9]], "fail")
        elif k == "read":
            self.type(r.choice(["vh('ad:%%(VF_LOG)s:%ss', 'up')", "vh('ad:%%(VF_LOG)s:%ss', 'up') | vh('cat')"]) % t)
            self.logged(t + "s")
            lines = ["%s%d" % (t.lower(), i) for i in range(r.choice([1, 2]))]
            for l in lines:
                self.do("type", l + "\n")
            self.do("type", "\x04")
            self.prompt([[l.upper(), 1, 1] for l in lines], "read")
        elif k == "int":
            if self.jobs:
                return
            self.type(self.started(t) + r.choice(["", " | vh('cat')"]))
            self.logged(t + "s")
            self.do("type", "\x03")
            self.prompt(kind="int")
            self.state(t, "gone")
            self.unknown = True
        elif k == "stop":
            self.type(self.started(t, after="'w:%s', " % hexed(t + "w\n") if r.random() < 0.5 else ""))
            shows = "w:" in self.typed[-1]
            self.logged(t + "s")
            for i in range(r.choice([1, 1, 2, 3])):
                if i:
                    self.type(r.choice(["fg", "fg", "fg(env.last_pipeline)"]))
                    self.state(t, "running")
                    self.do("log", t + "s", kind="fg")
                self.do("type", "\x1a")
                self.prompt(kind="stop")
                self.state(t, "stopped")
                if r.random() < 0.2:
                    self.line("'T%%d.' %% %s" % t[1:-1], [["'%s'" % t, 1, 1]])
            k = r.random()
            if k < 0.2 and not self.jobs:
                self.type("fg")
                self.state(t, "running")
                self.do("log", t + "s")
                self.do("type", "\x03")
                self.prompt(kind="int")
                self.state(t, "gone")
                self.unknown = True
            elif k < 0.45 and not shows:
                self.line("bg", kind="bg")
                self.state(t, "running")
                self.do("gate", "g" + t)
                self.logged(t + "e")
                self.unknown = True
            else:
                self.type(r.choice(["fg", "fg", "fg(env.last_pipeline)", "fg(env.running_pipelines[-1])"]))
                self.state(t, "running")
                self.do("gate", "g" + t)
                self.log.append(t + "e")
                self.prompt([[t + "w", 1, 1]] if shows else [], "fg")
        elif k == "back":
            name = "job%d" % self.n
            self.line("%s = %s" % (name, "~" + self.started(t) if r.random() < 0.5 else self.started(t) + " & True"), started=t, kind="back")
            self.logged(t + "s")
            self.plan[-2]["log"] = None # It can have started before or after that
            self.state(t, "running")
            self.jobs.append([name, t])
        elif k == "job" and self.jobs:
            name, t = self.jobs.pop(r.randrange(len(self.jobs)))
            if r.random() < 0.3:
                # Ended before it is waited for
                self.do("gate", "g" + t)
                self.logged(t + "e")
                self.line("fg(%s)" % name, kind="fg")
            else:
                self.type("fg(%s)" % name)
                self.do("pause", 0.2)
                self.do("gate", "g" + t)
                self.log.append(t + "e")
                self.prompt(kind="fg")
        elif k == "jobs" and not self.unknown:
            self.line("'%d' + str(len(env.running_pipelines)) + 'jobs'" % self.n, [["'%d%djobs'" % (self.n, len(self.jobs)), 1, 1]])
        elif k == "cd":
            to = r.choice(["d1", "d2", "d1/d3", "..", "PARENT", "missing", "."])
            if to in ("..", "PARENT"):
                if len(self.cwd) == 1:
                    return
                self.cwd.pop()
                self.line(r.choice(["cd('..')", "cd.PARENT"]), kind="cd")
            elif to == "missing":
                self.line("cd('missing')", [["missing", 2, 99]], kind="fail")
            elif to == ".":
                self.line("cd(exports['VF_TOP'])", kind="cd") if len(self.cwd) == 1 else None
            elif len(self.cwd) == 1:
                self.cwd += to.split("/")
                self.line("cd('%s')" % to, kind="cd")
        elif k == "where":
            self.line("__import__('os').getcwd() + '!'", [["@CWD@!", 1, 1]])
            self.line("vh('cwd')", [["@CWD@\n", 1, 1]])
        elif k == "compound":
            if self.pt:
                self.line("for i_ in range(2): print('T%%d.' %% (%s + i_ * 100))" % t[1:-1], [[t, 1, 1], ["T%d." % (int(t[1:-1]) + 100), 1, 1]])
            else:
                self.type("for i_ in range(2):")
                self.do("prompt", "more", log=None)
                self.type("    print('T%%d.' %% (%s + i_ * 100))" % t[1:-1])
                self.do("prompt", "more", log=None)
                self.type("")
                self.prompt([[t, 1, 1], ["T%d." % (int(t[1:-1]) + 100), 1, 1]])
        elif k == "function":
            self.line("def f_(): yield bytes.fromhex('%s')" % hexed(t.lower()))
            self.line("f_() | vh('up')", [[t, 1, 1]])
        elif k == "list":
            self.line("list(vh('w:%s'))" % hexed("%s\nb\n" % t), [["['%s', 'b']" % t, 1, 1]])
        elif k == "export":
            self.line("exports['C28'] = '%s'" % t)
            self.line("vh('getenv:C28')", [["+" + t, 1, 1]])
        elif k == "tty":
            self.line("_('sh', '-c', 'test -t 0 && test -t 1 && expr %s + 1000')" % t[1:-1], [[str(int(t[1:-1]) + 1000), 1, 1]])
        elif k == "many":
            self.line("vh('w:%s') + vh('w:%s')" % (hexed(t + "1\n"), hexed(t + "2\n")), [[t + "1", 1, 1], [t + "2", 1, 1]])

    def end(self):
        r = self.rng
        while self.jobs:
            name, t = self.jobs.pop()
            self.type("fg(%s)" % name)
            self.do("gate", "g" + t)
            self.log.append(t + "e")
            self.prompt(kind="fg")
        k = r.choice(["eof", "eof", "exit", "code"])
        if self.pt:
            k = "eof"
        if k == "eof":
            self.do("type", "\x04")
            if self.pt:
                self.do("asked", "want to exit?")
                self.do("type", "y")
            self.code = 0
        elif k == "exit":
            self.type("exit()")
            self.code = 0
        else:
            self.code = r.choice([0, 3])
            self.type("raise SystemExit(%d)" % self.code)
        self.do("end")


def one(rng, tier):
    pt = rng.random() < 0.3
    s = Session(rng, pt)
    s.prompt(kind="first")
    n = rng.choice([3, 5, 8, 12])
    while len([x for x in s.script if x[0] == "prompt"]) <= n:
        s.statement()
    s.end()
    argv = ["--ptpython"] if pt else []
    config = rng.choice([None, "", "conf_ = 1\n"])
    if rng.random() < 0.4:
        argv.append("--no-startup")
    history = rng.choice([None, None, [], ["old1", "old2('x')"]])
    p = {"argv": argv, "env": {}, "config": config, "history": history, "script": s.script, "pt": pt, "dirs": ["d1", "d1/d3", "d2"]}
    return {"scn": "terminal", "p": p, "delays": {}, "cfg": {}, "plan": s.plan, "typed": s.typed, "code": s.code, "log": s.log}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    top = obs["top"]
    J.observed(j, res)
    typed = ""
    for (what, arg), plan, step in zip(p["script"], case["plan"], obs["steps"]):
        if what == "type":
            typed = arg
            if arg.endswith("\r") and step["ok"]:
                j.count("statements typed")
                if p["pt"]:
                    j.count("typed in ptpython")
        out = step.get("out", "")
        if not step["ok"]:
            what = {"prompt": "the prompt was not shown again", "log": "%s was not run" % arg, "end": "it did not end", "asked": "it did not ask %r" % arg,
                    "state": "the process is in state %s, not %s" % (step.get("state"), arg and arg[1])}.get(what, what)
            j.fail("stuck", "after %r: %s; shown: %s" % (typed, what, out[-1500:]))
            return
        if what == "state":
            j.count({"gone": "processes gone", "stopped": "processes stopped", "running": "processes continued"}[plan["state"]])
        if what != "prompt" or arg == "more":
            continue
        cwd = top + plan["cwd"][len("top"):]
        for text, least, most in plan["shows"]:
            text = text.replace("@CWD@", cwd)
            n = out.replace("\r", "").count(text)
            j.check(least <= n <= most, "shown", "after %r: %r shown %d times, expected %s; shown: %s" % (
                typed, text, n, least if least == most else "%d-%d" % (least, most), out[-1500:]))
        if plan["log"] is not None:
            j.eq(step["log"], plan["log"], "run", "what was run until after %r" % typed)
        prompts = re.findall(r":([^\r\n]*?) >>>", out)
        if j.check(prompts, "prompt", "after %r: no prompt; shown: %s" % (typed, out[-600:])):
            j.eq(prompts[-1], cwd, "prompt", "directory in the prompt after %r" % typed)
        j.count({"fail": "failing statements", "int": "interrupted", "stop": "stopped", "fg": "continued in the foreground", "bg": "continued in the background",
                 "read": "programs that read the terminal", "cd": "changes of directory", "back": "jobs started in the background"}.get(plan["kind"], "other statements"))
    j.eq(obs["exit"], case["code"], "code", "exit code")
    j.eq(obs["log"], case["log"], "run", "what was run")
    old = p["history"] or []
    hist = obs["history"]
    if j.check(hist is not None, "history", "no history was written"):
        j.eq(hist[:len(old)], old, "history", "the history before")
        new = hist[len(old):]
        if p["pt"]:
            pass # ptpython has one of its own
        else:
            # Not those repeated
            exp = [t for k, t in enumerate(case["typed"]) if t and (not k or case["typed"][k - 1] != t)]
            got = [t for k, t in enumerate(new) if t and (not k or new[k - 1] != t)]
            j.eq(got, exp, "history", "new history")
            j.count("histories written")
    j.nontrivial()
    J.check_conserved(j, res, tmp=False)
