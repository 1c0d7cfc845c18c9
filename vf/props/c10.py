"""C10: all ways to write a command give the same argument vector"""
import keyword

from .. import gen, judge as J

RULE = ("Random Python expressions building 1-6 commands from each other, evaluated in an environment's scope and with env.X, mixing "
        "attributes, calls, _ and paths, named parameters, dictionaries, R(), path objects, -a and x-a-b options, with arguments that are empty, "
        "long, not UTF-8 and full of quotes, spaces and newlines; then run in several orders and ways, more than once; the argument "
        "vector of every run compared byte for byte; non-trivial if an argument vector was compared, distinct by expressions")
QUICK = {"cases": 1000, "budget": 25}
THOROUGH = {"cases": 100000, "budget": 400}
REQUIRED = {"argument vectors compared": 2500, "arguments compared": 15000, "option words": 500}

# Attributes of commands, and of classes in general, are not arguments
WORDS = ["foo", "bar", "status", "x", "clone", "init", "Push", "a1", "very_long_word", "type", "str", "int", "id", "list", "format", "lower",
         "stdin", "stdout", "name", "path", "Q", "cd", "bg", "subshell", "commit", "_under"]
LETTERS = ["a", "U", "w", "v", "name", "print0", "n", "maxdepth", "vh", "ls", "i_x", "aaa"]


class Cmd(object):
    """What is expected: [[bytes of one argument] or [several, in any order]]"""

    def __init__(self, src, argv):
        self.src = src
        self.argv = argv


def enc(s):
    return s.encode("utf-8", "surrogateescape")


class G(gen.Gen):
    def __init__(self, rng, scope):
        gen.Gen.__init__(self, rng)
        self.scope = scope

    def string(self):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return ""
        if k < 0.5:
            s = self.text(r.randrange(0, 20)).replace("\0", "")
        elif k < 0.6:
            s = r.choice(["a b", "\n", "-", "--", "--x", "-x=1", "a=b", "'", '"', "\\", "$HOME", "`id`", ";", "&", "|", ">x", "$(id)", "#", "\t", "!",
                          "{}", "{a,b}", "(", "%", "%%", "100%", "%s", "%(x)s", "@D", "\\n", "a\\ b", "None", "True", "[", "]"])
        elif k < 0.7:
            s = bytes(r.randrange(1, 256) for i in range(r.randrange(1, 12))).decode("utf-8", "surrogateescape")
        elif k < 0.72:
            s = r.choice("xy\u20ac") * r.choice([1000, 4096, 30000])
        else:
            s = r.choice(WORDS)
        return s

    def lit(self, s):
        """Source for s as an argument that is not expanded"""
        if any(c in s for c in "*?[") or s.startswith("~") or self.rng.random() < 0.15:
            return "R(%s)" % ascii(s)
        return ascii(s.replace("%", "%%"))

    def name(self, n):
        """Source for a command by its name"""
        if self.scope and self.rng.random() < 0.8:
            return n
        return "E." + n

    def value(self, kw):
        """(source, value or None)"""
        r = self.rng
        k = r.random()
        if k < 0.15:
            s = r.choice(["a/b.txt", "x", "/no/such", "*.x", "%d", "~"])
            if kw:
                return "%s(%r)" % (r.choice(["Path", "PurePath"]), s), s
            return "%s(%r)" % (r.choice(["Path", "PurePath"]), s), s
        if kw and k < 0.3:
            v = r.choice([0, 1, -5, 10 ** 20, 1.5, None])
            return repr(v), str(v)
        s = self.string()
        return self.lit(s), s

    def call(self):
        """Source for what is in the parentheses, and the arguments"""
        r = self.rng
        src = []
        argv = []
        for i in range(r.choice([0, 1, 1, 2, 2, 3, 6])):
            k = r.random()
            if k < 0.12:
                d = self.kws(r.choice([0, 1, 1, 2, 3]), dic=True)
                src.append("{%s}" % ", ".join("%s: %s" % (ascii(n), s) for n, s, v in d))
                argv += self.kwargs(d)
            elif k < 0.27:
                o = r.choice(LETTERS)
                src.append("-" + self.name(o))
                argv.append([enc("-" + o)])
                self.options += 1
            elif k < 0.3:
                s = self.string()
                src.append("-%s(%s)" % (r.choice(["_", "E._"]) if self.scope else "E._", ascii(s.replace("%", "%%"))))
                s = "-" + s
                if any(c in s for c in "*?["):
                    src.pop()
                    continue
                argv.append([enc(s)])
                self.options += 1
            else:
                a, v = self.value(False)
                src.append(a)
                argv.append([enc(v)])
        if r.random() < 0.3:
            d = self.kws(r.choice([1, 1, 2, 4]), dic=False)
            src += ["%s=%s" % (n, s) for n, s, v in d]
            argv += self.kwargs(d)
        return ", ".join(src), argv

    def kws(self, n, dic):
        r = self.rng
        res = []
        names = set()
        for i in range(n):
            name = r.choice(["a", "verbose", "dry_run", "x_y_z", "_lead", "trail_", "type", "name", "destination", "unified", "self_", "env", "arg", "A"] +
                            (["a-b", "\u00e5", "with space", "class", "x=y", "", "1"] if dic else []))
            if name in names:
                continue
            names.add(name)
            k = r.random()
            if k < 0.2:
                res.append((name, "True", True))
            elif k < 0.35:
                res.append((name, "False", False))
            else:
                s, v = self.value(True)
                res.append((name, s, v))
        return res

    def kwargs(self, d):
        g = []
        for n, s, v in d:
            n = n.replace("_", "-")
            if v is True:
                g.append(enc("--" + n))
            elif v is not False:
                g.append(enc("--%s=%s" % (n, v)))
        return [g] if g else []

    def start(self):
        r = self.rng
        k = r.random()
        root = r.choice(["_", "E._"]) if self.scope else "E._"
        if k < 0.35:
            n = r.choice(["dumper", "dumper", "dumper2", "dumper_x", "Cd", "FG", "cd_", "Remote"])
            return Cmd(self.name(n), [[n.encode()]])
        if k < 0.5:
            n = r.choice(["dumper", "dumper2", "dumper_x", "dumper-x", "dumper.y", "./bin/dumper", "bin/dumper"])
            return Cmd("%s(%r)" % (root, n), [[n.encode()]])
        if k < 0.65:
            n = r.choice(["dumper", "dumper", "dumper2", "dumper_x", "Cd", "FG", "cd_", "Remote"])
            return Cmd("%s.%s" % (root, n), [[n.encode()]])
        if k < 0.75:
            return Cmd("%s()()('dumper')" % root, [[b"dumper"]])
        if k < 0.85:
            n = r.choice(["dumper-x", "dumper.y", "dumper"])
            return Cmd("getattr(%s, %r)" % (r.choice(["E", root]), n), [[n.encode()]])
        return Cmd("%s(Path('bin/dumper'), 'x')" % root if r.random() < 0.3 else "%s(R('./bin/dumper'), 'x')" % root, [[None], [b"x"]])

    def grow(self, c):
        r = self.rng
        for i in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = r.random()
            if k < 0.3:
                w = r.choice(WORDS)
                c = Cmd("%s.%s" % (c.src, w), c.argv + [[w.encode()]])
            elif k < 0.4:
                w = self.string().replace("\0", "")
                w = w if not any(x in w for x in "*?[") else "plain"
                if w.startswith(("~", "__")) or w in ("",):
                    w = "plain"
                c = Cmd("getattr(%s, %s)" % (c.src, ascii(w.replace("%", "%%"))), c.argv + [[enc(w)]])
            elif k < 0.55:
                o = r.choice(LETTERS)
                c = Cmd("(%s-%s)" % (c.src, self.name(o)), c.argv + [[enc("-" + o)]])
                self.options += 1
            else:
                s, a = self.call()
                c = Cmd("%s(%s)" % (c.src, s), c.argv + a)
        return c


HOWS = ["bytes", "bytes", "list", "file", "await", "bg", "pipe", "arg", "group", "run"]


def one(rng, tier):
    mode = rng.choice(["scope", "env"])
    g = G(rng, mode == "scope")
    g.options = 0
    cmds = []
    ops = []
    for i in range(rng.choice([1, 2, 3, 4, 6])):
        if cmds and rng.random() < 0.65:
            b = rng.randrange(len(cmds))
            c = g.grow(Cmd(cmds[b].src, cmds[b].argv))
        else:
            c = g.grow(g.start())
        ops.append(["exec", "b%d = %s" % (i, c.src)])
        cmds.append(Cmd("b%d" % i, c.argv))
        if rng.random() < 0.15:
            ops.append(["repr", "b%d" % rng.randrange(len(cmds))])
        if rng.random() < 0.3:
            ops.append(["run", "b%d" % rng.randrange(len(cmds)), rng.choice(HOWS)])
    for i in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < 0.2:
            b = rng.randrange(len(cmds))
            c = g.grow(Cmd(cmds[b].src, cmds[b].argv))
        else:
            c = cmds[rng.randrange(len(cmds))]
        ops.append(["run", c.src, rng.choice(HOWS)])
        if c.src not in [x.src for x in cmds]:
            cmds.append(c)
    want = {c.src: [sorted(x.hex() if x is not None else "?" for x in grp) for grp in c.argv] for c in cmds}
    cfg = g.cfg(0.15)
    return {"scn": "exprs", "p": {"mode": mode, "ops": ops}, "want": want, "options": g.options, "cfg": cfg}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def compare(j, got, want, what):
    """want: groups of arguments, each in any order"""
    if not j.check(len(got) == sum(map(len, want)), "argv", lambda: "%s: %d arguments, expected %d: %s" % (
            what, len(got), sum(map(len, want)), J_short(got))):
        return
    i = 0
    for grp in want:
        a = sorted(got[i:i + len(grp)])
        w = grp
        if w == ["?"]:
            j.check(bytes.fromhex(a[0]).endswith(b"bin/dumper"), "argv", lambda: "%s: argv[0] is %r" % (what, bytes.fromhex(a[0])))
        elif a != w:
            j.fail("argv", "%s: arguments %d-%d are %r, expected %r" % (
                what, i, i + len(grp) - 1, [bytes.fromhex(x)[:200] for x in a], [bytes.fromhex(x)[:200] for x in w]))
            return
        i += len(grp)
    j.count("argument vectors compared")
    j.count("arguments compared", len(got))


def J_short(got):
    return repr([bytes.fromhex(x)[:60] for x in got])[:600]


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    j.count("option words", case["options"])
    runs = [i for i, op in enumerate(p["ops"]) if op[0] == "run"]
    j.eq([r[0] for r in obs["res"]], runs, "runs", "runs")
    for i, argv, err in obs["res"]:
        src = p["ops"][i][1]
        if argv is None:
            j.fail("failed", "%s (%s) failed: %s" % (src[:200], [o[1][:200] for o in p["ops"] if o[0] == "exec" and o[1].startswith(src + " = ")], err))
            continue
        compare(j, argv, case["want"][src], "%s (run %s)" % (src[:200], p["ops"][i][2]))
    J.check_conserved(j, res)
    j.nontrivial()
