"""C22: the command line runs what it is given"""
import re

from .. import gen, model, judge as J

RULE = ("pieshell run as a program with random combinations of 1-3 pysh files (in other directories, with odd names, ending in the middle, leaving by SystemExit, "
        "changing directory), --cmd, --pcmd of pickled pipelines, statements on standard in (failing ones too), unknown options, --version and --help, "
        "with a configuration that is missing, the user's own or not writable, or --no-startup; what was run, its order, output, input, arguments, names defined, "
        "exit code and the files in the home directory are compared with a model; non-trivial if a statement was run, distinct by command line and files")
QUICK = {"cases": 170, "budget": 60, "batch": 8}
THOROUGH = {"cases": 12000, "budget": 400, "batch": 8}
REQUIRED = {"statements run": 250, "files run": 50, "commands given": 12, "pickled pipelines": 6, "statements of standard in": 30, "configurations run": 20,
            "default configurations created": 8, "not started up": 15, "nothing to run": 6, "directory changed": 4}
ASSUMPTIONS = ["Statements of files do not raise exceptions, other than SystemExit", "Commands in statements read from standard in do not read it themselves"]


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)
        self.n = 0
        self.names = []
        self.stdin_used = False
        self.default = False
        self.ask = False

    def token(self):
        self.n += 1
        return "T%d." % self.n


LOG = "with open(exports['VF_LOG'], 'a') as f_: f_.write(%r + '\\n')"
STARTUP = ("R('a b').str, Redirect('stdout', '/x').fd, TMP.__name__, STRING.__name__, PIPE.__name__, PipelineError.__name__, PipelineInterrupted.__name__, "
           "PipelineSuspended.__name__, pieshell.__name__, type(INIT).__name__, type(CURRENT).__name__, USERS is not None, PstreeProcess.__name__")
STARTUP_TEXT = "a b 1 TMP STRING PIPE PipelineError PipelineInterrupted PipelineSuspended pieshell PstreeProcess PstreeProcess True PstreeProcess"


def statement(g, where, startup, final=False):
    """[source, what it does]"""
    r = g.rng
    t = g.token()
    k = r.random()
    if g.ask:
        k = 0.6
    if k < 0.2:
        return [LOG % t, ["log", t]]
    if k < 0.35:
        return ["print(%r, flush=True)" % t, ["out", t + "\n"]]
    if k < 0.5:
        if where == "stdin" and r.random() < 0.5:
            # Run by being shown
            return ["vh('w:%s')" % (t + "\n").encode().hex(), ["out", t + "\n"]]
        return ["+vh('w:%s')" % (t + "\n").encode().hex(), ["out", t + "\n"]]
    if k < 0.56:
        return ["+(vh('w:%s') | vh('up') | (exports['VF_TOP'] + '/../outs/%s'))" % (t.encode().hex(), t), ["file", t, t.upper()]]
    if 0.59 < k < 0.62:
        g.ask = False
        # Whether the configuration that comes with pieshell is what was run
        return ["print(%r + str(int(dict.__contains__(globals(), 'parse_git_branch'))), flush=True)" % t, ["default", t + "%d\n" % g.default]]
    if k < 0.64:
        return ["print(args, sorted(kws.items()), flush=True)", ["args"]]
    if k < 0.72:
        name = r.choice(["aa", "bb", "cc", "R2"])
        g.names.append(name)
        return ["%s = %r" % (name, t), ["set", name, t]]
    if k < 0.84 and g.names:
        name = r.choice(g.names)
        return ["print(%s, flush=True)" % name, ["get", name]]
    if k < 0.88:
        return ["import sys; x_ = sys.stderr.write(%r); sys.stderr.flush()" % t, ["err", t]]
    if k < 0.92 and startup:
        return ["print(%s, flush=True)" % STARTUP, ["out", STARTUP_TEXT + "\n"]]
    if k < 0.96:
        return ["exports['C22'] = %r\n" % t + "+vh('getenv:C22')", ["out", "+" + t + "\n"]]
    return ["def f_():\n    %s\n\nf_()" % (LOG % t), ["log", t]]


def script(g, startup, conf=False, chdir=True):
    r = g.rng
    st = [statement(g, "conf" if conf else "file", startup) for i in range(r.choice([1, 1, 2, 4]))]
    if not conf and r.random() < 0.2 and not g.stdin_used:
        g.stdin_used = True
        st.insert(r.randrange(len(st) + 1), r.choice([["+vh('cat')", ["stdin"]], ["import sys; print(sys.stdin.read(), end='', flush=True)", ["stdin"]],
                                                      ["+(vh('cat') | vh('up') | vh('cat'))", ["stdin", "up"]]]))
    if chdir and r.random() < 0.15:
        st.insert(r.randrange(len(st) + 1), ["+cd(exports['VF_TOP'] + '/d2')", ["cd"]])
        st.append(["+vh('cwd')", ["cwd"]])
    if not conf and r.random() < 0.08:
        st.insert(r.randrange(len(st) + 1), ["raise SystemExit(%d)" % 7, ["exit", 7]])
    text = "\n".join(s[0] for s in st) + r.choice(["\n", "\n", "", "\n\n", "\n# \u20ac", "\n#"])
    return text, [s[1] for s in st]


def one(rng, tier):
    g = G(rng)
    r = rng
    startup = r.random() < 0.7
    files, plan, argv = {}, [], []
    config = None
    kind = r.choice(["files", "files", "files", "cmd", "cmd", "pcmd", "stdin", "stdin", "version", "help"])
    home = "ok"
    what = r.choice(["none", "own", "own", "own", "empty", "dir"])
    if what == "own":
        config, does = script(g, True, conf=True, chdir=r.random() < 0.4)
        if startup:
            plan += [["conf"]] + does
    elif what == "empty":
        config = ""
    elif what == "dir":
        # There is none in it
        config = "dir"
        g.default = startup
    elif kind == "stdin":
        g.default = startup
    else:
        g.default = startup
        home = r.choice(["ok", "ok", "readonly", "missing"])
        g.ask = home != "ok"
    g.names = [n for n in g.names if startup]
    stdin = ""
    node = None
    unread = None
    cwd = r.choice([".", "d1", "d1"])
    opts = []
    if not startup:
        opts.append("--no-startup")
    for i in range(r.choice([0, 0, 1, 3])):
        n = r.choice(["foo", "bar", "b-c", "x_y", "\u00e5"])
        v = r.choice([True, "", "1", "a b", "a=b", "\u20ac", "'", "--x", "$HOME"])
        opts.append("--" + n + ("" if v is True else "=" + v))
    args = []
    n = 0
    if kind == "files" or kind in ("cmd", "version", "help") and r.random() < 0.3:
        for i in range(r.choice([1, 1, 2, 3])):
            name = r.choice(["a.pysh", "b.pysh", "c d.pysh", "\u00e5.pysh", "noext", "'q'.pysh", "x=1.pysh", "-n.pysh", "%s.pysh"])
            d = r.choice([".", "d1"])
            path = d + "/" + name if d != "." else name
            if path in files:
                continue
            defined = list(g.names)
            text, does = script(g, startup)
            files[path] = [text, does]
            if kind != "files":
                g.names = defined
                g.stdin_used = False
            # As seen from where it is run
            if r.random() < 0.3:
                arg = "@D/" + path
            elif cwd == ".":
                arg = path
            else:
                arg = "../" + name if d == "." else name
            args.append(arg)
            if kind == "files":
                plan += [["begin"]] + files[path][1]
    if kind == "cmd" and r.random() < 0.12:
        # Nothing is run, e.g. a variable of a script was empty
        opts.append("--cmd=" + r.choice(["", "", " ", "# comment"]))
        plan += [["cmd"]]
        unread = "print('T%d.')\n" % (900 + r.randrange(90))
    elif kind == "cmd":
        if r.random() < 0.15 and not g.stdin_used:
            g.stdin_used = True
            src, does = r.choice([["vh('cat')", ["stdin"]], ["vh('cat') | vh('up')", ["stdin", "up"]]])
        else:
            while True:
                src, does = statement(g, "cmd", startup)
                if "\n" not in src and not (does[0] == "get" and does[1] not in g.names):
                    break
        opts.append("--cmd=" + src)
        plan += [["cmd"], does]
    elif kind == "pcmd":
        m = G(rng)
        k = r.random()
        if k < 0.4:
            node = m.cmd(["cat"])
            g.stdin_used = True
        elif k < 0.5:
            node = ["|", m.cmd(["cat"]), m.cmd(["up"])]
            g.stdin_used = True
        elif k < 0.8:
            node = ["|", m.source(text=True), m.filter(text=True)]
        else:
            node = ["sub", m.source(text=True), "S9"]
        opts.append("--pcmd=@PCMD")
        plan += [["pcmd"]]
    elif kind in ("version", "help"):
        v = r.choice([True, True, "1"])
        opts.append("--" + kind + ("" if v is True else "=" + v))
        if r.random() < 0.3:
            opts.append("--cmd=" + statement(g, "cmd", startup)[0].split("\n")[0])
        plan = []
    elif kind == "stdin":
        g.stdin_used = True
        lines = []
        for i in range(r.choice([0, 1, 3, 6])):
            k = r.random()
            if k < 0.75:
                src, does = statement(g, "stdin", startup)
                if does[0] == "file":
                    continue
            elif k < 0.85:
                src, does = r.choice([["1/0", ["nothing"]], ["nosuchprogram_('x')", ["nothing"]], ["x = = 1", ["nothing"]], ["vh('x:3')", ["nothing"]],
                                      ["raise Exception('x')", ["nothing"]], ["", ["nothing"]], ["# c", ["nothing"]]])
            elif k < 0.95:
                t = g.token()
                src, does = "for i_ in range(3):\n    print(%r + str(i_), flush=True)\n" % t, ["out", "".join("%s%d\n" % (t, i) for i in range(3))]
            else:
                src, does = "raise SystemExit(4)", ["exit", 4]
            # Compound statements end with an empty line
            lines.append(src + ("\n" if src.startswith(("with", "for", "def")) and not src.endswith("\n") else ""))
            plan += [["line"], does]
            if does[0] == "exit":
                break
        stdin = ("\n".join(lines) + r.choice(["\n", "\n", ""])).encode().hex()
        if lines and lines[-1].endswith("\n") and not stdin.endswith("0a0a"):
            stdin += "0a"
    if kind != "stdin":
        stdin = (g.text(r.choice([0, 10, 200])).replace("\0", "").encode("utf-8", "replace").replace(b"\r", b"")).hex()
        if g.rng.random() < 0.1:
            stdin = (b"line\n" * 30000).hex()
    if unread:
        stdin = unread.encode().hex()
    argv = opts + args
    if r.random() < 0.5:
        # Anywhere
        pos = sorted(r.random() for a in args)
        argv = [a for k, a in sorted([(r.random(), a) for a in opts] + list(zip(pos, args)), key=lambda x: x[0])]
    p = {"files": {f: x[0] for f, x in files.items()}, "config": config, "argv": argv, "stdin": stdin, "cwd": cwd, "home": home, "node": node,
         "dirs": ["d1", "d2"], "env": {}}
    return {"scn": "cli", "p": p, "delays": {}, "cfg": {}, "plan": plan, "kind": kind, "startup": startup}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    top = obs["top"]
    kind = case["kind"]
    args = [a for a in obs["argv"] if not a.startswith("--")]
    kws = {}
    for a in obs["argv"]:
        if a.startswith("--"):
            n, eq, v = a[2:].partition("=")
            kws[n] = v if eq else True
    printed = "%s %s\n" % (args, sorted(kws.items()))
    out, log, err, fls = "", [], [], {}
    names = {}
    code = 0
    stdin = bytes.fromhex(p["stdin"]).decode("utf-8", "replace")
    cwd = top if p["cwd"] == "." else top + "/" + p["cwd"]
    data = bytes.fromhex(obs["out"])
    for step in case["plan"]:
        k = step[0]
        if k == "log":
            log.append(step[1])
        elif k == "out":
            out += step[1]
        elif k == "default":
            out += step[1]
            j.count("asked for the default configuration" + (" without a home to write to" if p["home"] != "ok" else ""))
        elif k == "args":
            out += "@ARGS@"
        elif k == "set":
            names[step[1]] = step[2]
        elif k == "get":
            out += names[step[1]] + "\n"
        elif k == "err":
            err.append(step[1])
        elif k == "file":
            fls[step[1]] = step[2]
        elif k == "stdin":
            out += re.sub("[a-z]+", lambda x: x.group().upper(), stdin) if len(step) > 1 else stdin
        elif k == "cd":
            cwd = top + "/d2"
            j.count("directory changed")
        elif k == "cwd":
            out += cwd + "\n"
        elif k == "begin":
            j.count("files run")
        elif k == "conf":
            j.count("configurations run")
        elif k == "cmd":
            j.count("commands given")
        elif k == "pcmd":
            j.count("pickled pipelines")
        elif k == "line":
            j.count("statements of standard in")
        elif k == "exit":
            code = step[1]
            break
        if k not in ("begin", "conf", "cmd", "pcmd", "line"):
            j.count("statements run")
    j.eq(obs["log"], log, "run", "statements logged")
    j.check(obs["code"] != "timeout", "timeout", "did not end in 40 s")
    if kind != "version" and kind != "help":
        j.eq(obs["code"], code, "code", "exit code (standard err: %s)" % obs["err"][-1500:])
    tail = obs["err"]
    for t in err:
        k = tail.find(t)
        j.check(k >= 0, "err", "%r is not in, or not in that place of standard err: %s" % (t, obs["err"][-1500:]))
        tail = tail[k + len(t):] if k >= 0 else tail
    j.eq(len(re.findall(r"T\d+\.", obs["err"])) if kind != "stdin" else None, len(err) if kind != "stdin" else None, "err", "what standard err has: %s" % obs["err"][-1000:])
    if kind == "version":
        j.check(re.match(rb"\d+(\.\d+)+\n$", data) or "--help" in p["argv"], "out", "--version printed %s" % data[:300])
    elif kind == "help":
        j.check(b"--cmd=" in data and b"--pcmd=" in data and b"T" + b"1." not in data, "out", "--help printed %s" % data[:300])
    elif kind in ("stdin", "cmd") and "stdin" not in [x[0] for x in case["plan"]]:
        # The prompt and values are between
        pattern = r"(?<!/outs/)T\d+\.\d?|@ARGS@|" + re.escape(STARTUP_TEXT)
        text = data.decode("utf-8", "replace").replace(printed, "@ARGS@")
        j.eq(re.findall(pattern, text), re.findall(pattern, out), "out", "what statements printed (standard err: %s)" % obs["err"][-600:])
    else:
        if kind == "pcmd":
            out += model.evaluate(p["node"], bytes.fromhex(p["stdin"])).out.data.decode("utf-8", "surrogateescape")
        got = data.decode("utf-8", "surrogateescape").replace(printed, "@ARGS@")
        if kind == "cmd":
            # The value, with nothing to say
            got = got[:-1]
        j.eq(got, out, "out", "standard out (standard err: %s)" % obs["err"][-1500:])
    j.eq(obs["outs"], fls, "out", "files written")
    home = {k: v for k, v in obs["home"].items() if not k.endswith(".history")}
    exp = dict(obs["before"])
    if case["startup"] and kind not in ("version", "help") and (p["home"] == "ok" or obs["root"]) and ".config/pieshell" not in exp:
        exp[".config/pieshell"] = obs["default"]
        j.count("default configurations created")
    j.eq(sorted(home), sorted(exp), "home", "files in the home directory")
    j.check(home == exp, "home", "contents of files in the home directory")
    if not case["startup"]:
        j.count("not started up")
    if kind in ("version", "help"):
        j.count("nothing to run")
    if case["plan"]:
        j.nontrivial()
    J.check_conserved(j, res, tmp=False)

