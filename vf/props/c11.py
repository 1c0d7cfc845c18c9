"""C11: arguments are expanded once, by the documented rules, and R() not at all"""
import os
import pwd

from .. import gen, judge as J
from .c10 import compare, enc, HOWS

RULE = ("Commands with arguments and named parameters made of %-formats of environment variables, scope variables and literals, ~ and ~user, "
        "and patterns with *, ?, [...] and slashes, in directories (also named like patterns, and /) full of names chosen to match or nearly "
        "match; run after variables and files have changed; the argument vector compared with an independent implementation of the rules; "
        "non-trivial if a run with an expansion was compared, distinct by case")
QUICK = {"cases": 1000, "budget": 25}
THOROUGH = {"cases": 100000, "budget": 400}
REQUIRED = {"argument vectors compared": 1500, "arguments compared": 8000, "patterns with matches": 400, "patterns without matches": 300,
            "formats": 1500, "home directories": 200, "protected": 500}

HOMES = [(u.pw_name, u.pw_dir) for u in pwd.getpwall() if u.pw_name in ("root", "daemon", "bin", "nobody")]

NAMES = ["a", "b", "ab", "abc", "a.txt", "b.txt", "a.txt.bak", ".hid", ".a.txt", "A", "B.TXT", "a b", "a*b", "a?b", "[ab]", "[a", "a]", "x-1", "x-2",
         "\u00e5.txt", "\u20ac", "1", "2", "10", "%", "%s", "%(V)s", "~a", "~root", "-x", "a\nb", "!a", "^a", "$a", "\\", "a\\b", "{a,b}", "..a", "...", "--x=a",
         "\udcff.txt"]
DIRS = ["d1", "d2", "dd", ".hd", "d[1]", "d*", "~d", "d 1", "n\u00e4"]


# -- an independent matcher ------------------------------------------------

def parse(pat):
    """[(kind, what)] of a component of a pattern"""
    res = []
    i = 0
    while i < len(pat):
        c = pat[i]
        if c == "*":
            res.append(("*", None))
        elif c == "?":
            res.append(("?", None))
        elif c == "[":
            k = i + 1
            if pat[k:k + 1] == "!":
                k += 1
            if pat[k:k + 1] == "]":
                k += 1
            end = pat.find("]", k)
            if end < 0:
                res.append(("c", "["))
            else:
                body = pat[i + 1:end]
                neg = body.startswith("!")
                if neg:
                    body = body[1:]
                items = []
                m = 0
                while m < len(body):
                    if m + 2 < len(body) and body[m + 1] == "-":
                        items.append((body[m], body[m + 2]))
                        m += 3
                    else:
                        items.append((body[m], body[m]))
                        m += 1
                res.append(("[", (neg, items)))
                i = end
        else:
            res.append(("c", c))
        i += 1
    return res


def matches(toks, name):
    if not toks:
        return not name
    k, v = toks[0]
    if k == "*":
        return any(matches(toks[1:], name[i:]) for i in range(len(name) + 1))
    if not name:
        return False
    if k == "c":
        ok = name[0] == v
    elif k == "?":
        ok = True
    else:
        neg, items = v
        ok = any(a <= name[0] <= b for a, b in items) != neg
    return ok and matches(toks[1:], name[1:])


def magic(s):
    return any(c in s for c in "*?[")


class FS(object):
    """What there is: absolute path -> "d" or "f" """

    def __init__(self):
        self.e = {}

    def add(self, kind, path):
        while path not in self.e:
            self.e[path] = kind
            kind = "d"
            path = os.path.dirname(path)
            if path == "/":
                return

    def children(self, d):
        return [os.path.basename(p) for p in self.e if os.path.dirname(p) == d]

    def glob(self, cwd, pat):
        """Absolute paths matching pat"""
        dironly = pat.endswith("/")
        comps = [c for c in pat.split("/") if c not in ("", ".")]
        found = [cwd] if not pat.startswith("/") else ["/"]
        out = []
        # .. is a matter of names only, and comes before what is matched
        flat = []
        up = 0
        for c in comps:
            if c == "..":
                if flat:
                    flat.pop()
                else:
                    up += 1
            else:
                flat.append(c)
        if not pat.startswith("/"):
            for i in range(up):
                found = [os.path.dirname(found[0])]
        for n, c in enumerate(flat):
            last = n == len(flat) - 1
            nxt = []
            for d in found:
                if magic(c):
                    toks = parse(c)
                    for name in self.children(d):
                        if name.startswith(".") and not c.startswith("."):
                            continue
                        if matches(toks, name):
                            nxt.append(os.path.join(d, name))
                else:
                    p = os.path.join(d, c)
                    if p in self.e:
                        nxt.append(p)
            if not last or dironly:
                nxt = [p for p in nxt if self.e[p] == "d"]
            found = nxt
        return [p + ("/" if dironly else "") for p in found]


def expand(fs, cwd, home, vars_, s, j=None):
    """The documented rules"""
    n = s % vars_
    if j is not None and n != s.replace("%%", "%"):
        j.append("formats")
    s = n
    if s.startswith("~"):
        user, slash, rest = s[1:].partition("/")
        h = home if not user else dict(HOMES).get(user)
        if h is not None:
            s = (h.rstrip("/") + slash + rest) or "/"
            if j is not None:
                j.append("home directories")
    if not magic(s):
        return [s]
    m = fs.glob(cwd, s)
    if j is not None:
        j.append("patterns with matches" if m else "patterns without matches")
    if not m:
        return [s]
    res = []
    for p in m:
        if cwd != "/" and p.startswith(cwd + "/"):
            p = "." + p[len(cwd):]
        res.append(p)
    return res


class G(gen.Gen):
    def pattern(self):
        r = self.rng
        k = r.random()
        comp = lambda: r.choice(["*", "*", "?", "a*", "*.txt", "*b*", "[ab]", "[ab]*", "[!a]*", "x-[0-9]", ".*", "*a", "??", "d*", "d[12]", "[a-c]*.txt", "\u00e5*",
                                 "[]]", "[!]a]*", "[*]", "a[*?]b", "[[]*", "d[[]1]", "**", "*.*", "[", "a[", "[^a]*", "[a-]*", "[-a]*", "?.txt", "~*", "-*", "n\u00e4*",
                                 "*\\*", "%%*", "%%(V)s*", "nope*", "*\n*", "[\u00e0-\u00ff]*"])
        if k < 0.5:
            s = comp()
        elif k < 0.75:
            s = r.choice(DIRS + ["d*", "*", ".", "..", "../..", "nosuch", "?d", "*d*"]) + "/" + comp()
        elif k < 0.85:
            s = comp() + "/" + r.choice(["a.txt", "a", "*", ".hid", "%%", ""])
        elif k < 0.92:
            s = "%(D)s/" + r.choice(["", "w/", "w/d1/", "*/"]) + comp()
        elif k < 0.96:
            s = "~/" + comp()
        else:
            s = "/" + r.choice(["et?/passwd", "nosuch*", "etc/passw[d]", "[e]tc/./passwd"])
        if r.random() < 0.08:
            s += "/"
        if r.random() < 0.06:
            s = "./" + s if not s.startswith(("/", "~", "%")) else s
        return s

    def var(self):
        r = self.rng
        return r.choice(["%(V)s", "%(V)s", "%(W)s", "%(L)s", "%(N)s", "%(EMPTY)s", "%(PAT)s", "%(PCT)s", "%(TIL)s", "%(V)5s", "%(V)-6s|", "%(V).1s", "%(W)r", "%%(V)s", "%%",
                         "%%%(V)s", "%(STAR)s"])

    def arg(self):
        r = self.rng
        k = r.random()
        if k < 0.3:
            return self.pattern()
        if k < 0.55:
            s = "".join(r.choice([self.var(), self.var(), "a", "-", "/", " ", "~", "x.txt"]) for i in range(r.choice([1, 1, 2, 3])))
            return s
        if k < 0.68:
            return r.choice(["~", "~/", "~/x", "~root", "~root/x y", "~daemon/", "~nosuch", "~nosuch/x", "a~", "/~", " ~", "~~", "~bin%%", "~%(U)s", "~%(U)s/x", "~/~",
                             "./~", "~/%(V)s"])
        if k < 0.85:
            return r.choice(["plain", "", "a b", "-x", "%%", "100%%", "d1", "a.txt", "$V", "$HOME", "${HOME}x", "`id`", "$(id)", "{a,b}", "\\", "a\nb", "x"])
        return self.var() + self.pattern()


VALUES = ["v1", "v 2", "", "a", "d1", "*", "a*", "~", "~root", "%(W)s", "%", "\u20ac", "x%sx", "[ab]", "?", ".", "/", "%%"]


def one(rng, tier):
    g = G(rng)
    mode = rng.choice(["scope", "env"])
    w = rng.choice(["w", "w", "w", "w[1]", "w*", "w ?", "w\u00e5", "wd/w"])
    ents = []

    def ent(base):
        for i in range(rng.choice([0, 2, 5, 12])):
            ents.append(["f", os.path.join(base, rng.choice(NAMES))])
        for i in range(rng.choice([0, 1, 3])):
            d = os.path.join(base, rng.choice(DIRS))
            ents.append(["d", d])
            if base.count("/") < 2:
                for i in range(rng.choice([0, 2, 4])):
                    ents.append(["f", os.path.join(d, rng.choice(NAMES))])
    ents.append(["d", w])
    ent(w)
    if rng.random() < 0.4:
        ent(".")
    for k in range(3):      # could be matched by the name of the directory
        if rng.random() < 0.3:
            ents.append(["d", rng.choice(["w1", "wx", "w", "w y"])])
            ents.append(["f", ents[-1][1] + "/" + rng.choice(NAMES)])
    ents.append(["d", "home"])
    for i in range(rng.choice([0, 3])):
        ents.append(["f", "home/" + rng.choice(NAMES)])
    ents.append(["d", "proc"])
    ents.append(["f", "proc/" + rng.choice(NAMES)])
    seen = {}
    files = []
    for k, p in ents:
        p = os.path.normpath(p)
        if p in seen or any(seen.get(d) == "f" for d in (os.path.dirname(p), os.path.dirname(os.path.dirname(p)))):
            continue
        seen[p] = k
        files.append([k, p])
    exports = {k: rng.choice(VALUES) for k in ("V", "W", "L", "N", "PAT")}
    exports.update({"D": "@D", "EMPTY": "", "STAR": rng.choice(["*", "a*", "*.txt", "d*/"]), "PCT": "%(V)s", "TIL": "~", "U": rng.choice(["root", "nosuch", ""])})
    ops = []
    steps = []      # what the model does: ["set", where, name, value], ["tree", entries], ["run", args]
    if mode == "scope":
        for n, v in (("loc", "local"), ("num", 7)):
            ops.append(["exec", "%s = %r" % (n, v)])
            steps.append(["set", "local", n, v])
    cmds = []
    cwd = w if rng.random() < 0.93 else "/"
    late = []
    for i in range(rng.choice([1, 2, 3])):
        src = []
        args = []
        for k in range(rng.choice([1, 2, 4, 8])):
            a = g.arg()
            if mode == "scope" and rng.random() < 0.2:
                a = rng.choice(["%(loc)s", "%(num)s", "%(num)03d", "%(loc)s*"]) + a
            q = rng.random()
            if q < 0.18:
                raw = a
                src.append("R(%s)" % ascii(raw))
                args.append(["raw", None, raw])
            elif q < 0.24 and a and "\0" not in a:
                src.append("PurePath(%s)" % ascii(a))
                args.append(["raw", None, "PATH:" + a])
            else:
                src.append(ascii(a))
                args.append(["exp", None, a])
        kws = {}
        ksrc = []
        for n in rng.sample(["alpha", "b_c", "x"], rng.choice([0, 0, 1, 2])):
            a = g.arg()
            if rng.random() < 0.2:
                ksrc.append("%s=R(%s)" % (n, ascii(a)))
                args.append(["raw", n, a])
            else:
                ksrc.append("%s=%s" % (n, ascii(a)))
                args.append(["exp", n, a])
        e = "E.dumper(%s)" % ", ".join(src + ksrc)
        ops.append(["exec", "b%d = %s" % (i, e)])
        cmds.append(args)
    for i in range(rng.choice([1, 2, 3, 4])):
        k = rng.random()
        if i and k < 0.3:
            n, v = rng.choice(["V", "W", "STAR", "PAT"]), rng.choice(VALUES)
            ops.append(["exec", "E._exports[%r] = %s" % (n, ascii(v)) if mode == "env" or rng.random() < 0.5 else "%s = %s" % (n, ascii(v))])
            steps.append(["set", "exports", n, v])
        elif i and k < 0.45 and mode == "scope":
            v = rng.choice(VALUES)
            ops.append(["exec", "loc = %s" % ascii(v)])
            steps.append(["set", "local", "loc", v])
        elif i and k < 0.7:
            new = [["f", os.path.join(w, rng.choice(["zz", "a1", "new.txt", "ab1", ".new", "x-3"]))]]
            new = [x for x in new if x[1] not in seen]
            for x in new:
                seen[x[1]] = "f"
            ops.append(["tree", new])
            steps.append(["tree", new])
        b = rng.randrange(len(cmds))
        ops.append(["run", "b%d" % b, rng.choice(HOWS)])
        steps.append(["run", b])
    return {"scn": "exprs", "p": {"mode": mode, "ops": ops, "cwd": cwd, "exports": exports, "files": files, "procdir": "proc" if rng.random() < 0.5 else None},
            "steps": steps, "cmds": cmds, "cfg": dict(g.cfg(0.1))}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    D = obs["dir"]
    J.observed(j, res)
    fs = FS()
    fs.add("d", D)
    for extra in ("bin",):
        fs.add("d", D + "/" + extra)
    fs.add("f", D + "/bin/dumper")
    fs.add("f", D + "/stdout")
    for k, x in p["files"]:
        fs.add(k, D + "/" + x)
    for x in ("/etc", "/etc/passwd"):
        fs.add("d" if x == "/etc" else "f", x)
    home = os.path.dirname(D)       # HOME of the worker
    vars_ = dict(p["exports"], D=D)
    local = {"D": D}
    cwd = os.path.normpath(os.path.join(D, p["cwd"]))
    it = iter(obs["res"])
    opi = iter([(i, op) for i, op in enumerate(p["ops"]) if op[0] == "run"])
    did = []
    for s in case["steps"]:
        if s[0] == "set":
            (local if s[1] == "local" else vars_)[s[2]] = s[3]
        elif s[0] == "tree":
            for k, x in s[1]:
                fs.add(k, D + "/" + x)
        else:
            i, op = next(opi)
            got = next(it, None)
            if not j.check(got is not None and got[0] == i, "runs", "run %d is missing" % i):
                return
            scope = dict(vars_)
            if p["mode"] == "scope":
                scope.update(local)
            want = [[b"dumper".hex()]]
            ok = True
            for kind, name, a in case["cmds"][s[1]]:
                pre = "--%s=" % name.replace("_", "-") if name else ""
                if kind == "raw":
                    if a.startswith("PATH:"):
                        import pathlib
                        a = str(pathlib.PurePosixPath(a[5:]))
                    vs = [a]
                    j.count("protected")
                else:
                    if not safe(a % scope, D, cwd, home):
                        ok = False
                    vs = expand(fs, cwd, home, scope, a, did)
                want.append(sorted(enc(pre + v).hex() for v in vs))
            if not ok:
                j.count("runs looking outside")
                continue
            if got[1] is None:
                j.fail("failed", "%s failed: %s" % (src_of(p, op[1]), got[2]))
                continue
            # kwargs come in any order, and are last
            nk = sum(1 for a in case["cmds"][s[1]] if a[1])
            if nk > 1:
                want = want[:-nk] + [sorted(sum(want[-nk:], []))]
            compare(j, got[1], want, "%s (run %s)" % (src_of(p, op[1]), op[2]))
    for d in did:
        j.count(d)
    if did:
        j.nontrivial()
    J.check_conserved(j, res, tmp=True)


def src_of(p, name):
    for op in p["ops"]:
        if op[0] == "exec" and op[1].startswith(name + " = "):
            return op[1][:400]


def safe(s, D, cwd, home):
    """Does s, a pattern, only look at directories with what we put there?"""
    if s.startswith("~"):
        return not magic(s)
    if not magic(s):
        return True
    if s.startswith("/"):
        path = s
    else:
        path = cwd + "/" + s
        if cwd == "/":
            return s.startswith(("et?/passwd", "nosuch"))
    path = os.path.normpath(path)
    if s.startswith("/") and not s.startswith(D):
        return s.rstrip("/") in ("/et?/passwd", "/nosuch*", "/etc/passw[d]", "/[e]tc/./passwd")
    return path.startswith(D + "/")
