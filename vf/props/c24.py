"""C24: what could be run is listed, and nothing of it run"""
import builtins
import keyword
import os

from .. import gen, judge as J

RULE = ("Random histories of 8-25 changes - files, directories, links, unreadable ones, PATHs of absolute, relative, empty, missing and odd entries or none, "
        "directories changed, builtins registered, environments copied, the cache cleared in all ways - and listings: dir() of environments, cd commands, builtins, "
        "pipelines, in scopes, of commands with completions defined in bash for arguments with all special characters, and what TAB offers in the shell, "
        "all compared with a model of the file system; no command listed, and nothing in arguments, may have been run, and no directory or variable changed; "
        "non-trivial if names were listed, distinct by operations")
QUICK = {"cases": 420, "budget": 45, "batch": 12}
THOROUGH = {"cases": 30000, "budget": 400, "batch": 12}
REQUIRED = {"environments listed": 250, "names listed": 4000, "cached lists": 150, "lists after clearing": 40, "lists with no PATH": 4, "cd listed": 250,
            "cd directories listed": 400, "commands completed": 90, "special arguments": 40, "scopes listed": 50, "completed in the shell": 20}
ASSUMPTIONS = ["Commands completed have a completion defined in bash, and the words it offers are not empty and have no white space at their ends",
               "Asking commands for their help, with --help, to complete the names of arguments is not meant"]

NAMES = ["alpha", "beta", "x1", "a-b", "b.c", "9z", "al pha", "ünï", ".hid", "~t", "%(x)s", "al*", "cd", "PARENT", "alphabet", "bg", "a'q", "é\udcff"]
DIRS = ["d1", "d2", "e e", "d1/s1", "d1/s2", "d*", "~", "~d"]
SAFE = lambda a: not set(a) & set("%*?[~")
ARGS = ["", " ", "a b", "$(echo ran >> \"$VF_MARKS\")", "`echo ran >> \"$VF_MARKS\"`", "; echo ran >> $VF_MARKS;", "'", '"', "\\", "$HOME", "*", "~", "%(x)s", "%", "a;b", "ab",
        "|", "&", ">x", "#", "--o=v", "-n", "!x", "{a,b}", "a\nb", "é", "[a]", "(", "1"]


def W(rng):
    return "".join(rng.choice("abcxyzé-._/:=") for i in range(rng.randint(1, 8)))


def paths(r):
    es = []
    for i in range(r.choice([1, 1, 2, 3, 5])):
        es.append(r.choice(["@T/d1", "@T/d2", "@T/e e", "d1", "d2", "d1/s1", "", "", ".", "..", "@T/d1/../d2", "@T/nosuch", "@T/d1/", "@T//d1", "./d1", "s1", "~",
                            "@T/d*", "@T/f0", "@T/l0", "@B", "@T/alpha", "@T/hid", "*", "%(x)s"]))
    return ":".join(es)


def one(rng, tier):
    r = rng
    dirs = ["d1", "d2"] + r.sample(DIRS[2:], r.randint(1, 5))
    dirs = [d for d in DIRS if d in dirs]
    ops = []
    for i in range(r.randint(2, 9)):
        n = r.choice(["@T/%s/%s" % (r.choice(dirs), r.choice(NAMES)), "@T/%s" % r.choice(NAMES + ["f0"])])
        k = r.choice(["file", "file", "file", "mkdir", "link"])
        ops.append(["file", n, r.choice([0o755, 0o755, 0o644, 0])] if k == "file" else ["mkdir", n] if k == "mkdir" else
                   ["link", r.choice([n, "@T/l0"]), r.choice(["@T/d1", "@T/d2", "@T/nosuch", "@T/alpha", "@T/d1/s1"])])
    if r.random() < 0.3:
        ops += [["mkdir", "@T/hid"], ["file", "@T/hid/inhid", 0o755], ["hide", "@T/hid"]]
    envs = ["a"]
    scopes = []
    kind = r.choice(["path", "path", "path", "path", "cd", "cd", "mixed", "mixed", "complete", "scope", "tab"])
    ops.append(["env", "a", r.choice(["@T", "@T", "@T/d1", "@T/d2"]), r.random() < (0.8 if kind == "tab" else 0.3)])

    def change():
        n = "@T/%s/%s" % (r.choice(dirs), r.choice(NAMES))
        return r.choice([["file", n, 0o755], ["file", n, 0o755], ["mkdir", n], ["rm", n], ["rm", "@T/" + r.choice(DIRS)], ["link", n, "@T/d1"],
                         ["register", r.choice(["magic", "alpha", "x-y"])]])

    def cd(e):
        how = r.choice(["attr", "args", "args"])
        n = r.choice([0, 1, 1, 2, 2, 3])
        return ["cddir", e, [r.choice(["d1", "d2", "s1", "PARENT", "ROOT", "nosuch", "e e", "~", "..", "@T", "alpha", "d*", "@T/d1", "l0", ".", "hid", "~d", "d1/s1", "~nosuchuser"])
                             for i in range(n)], how]
    for i in range(r.randint(5, 14)):
        e = r.choice(envs)
        k = r.random()
        if kind == "mixed":
            what = r.choice(["path", "path", "cd", "complete", "scope"])
        else:
            what = kind
        if k < 0.12:
            ops.append(change())
        elif k < 0.2:
            ops.append(["cd", e, r.choice(["@T", "@T/d1", "@T/d2", "d1", "..", "~", "nosuch", "@T/e e"])])
        elif k < 0.24:
            n = "bcdef"[len(envs) - 1] if len(envs) < 5 else "b"
            ops.append(["copy", n, e])
            envs = list(dict.fromkeys(envs + [n]))
        elif what == "path":
            ops.append(r.choice([["path", e, paths(r)], ["path", e, None], ["dir", e], ["dir", e], ["dir", e], ["changing", e], ["clear", e, r.choice(["run", "run", "args", "str", "tilde"])], change(),
                                 ["path", e, r.choice([None, paths(r), paths(r), ""])], ["parts", e, "alpha", "beta", r.choice(["pipe", "plus"])],
                                 ["builtin", e, r.choice(["bg", "fg", "clear_dir_cache", "magic", "bashsource", "subshell"])]]))
        elif what == "cd":
            ops.append(cd(e))
        elif what == "complete":
            args = []
            for n in range(r.choice([0, 1, 1, 2, 4])):
                h = r.choice(["attr", "arg", "arg", "arg", "R", "opts", "pipe"])
                args.append([h, r.choice(["sub", "o", "x1", "a_b"]) if h == "attr" else {r.choice(["opt", "o_p"]): r.choice([a for a in ARGS[1:] if SAFE(a)])} if h == "opts" else
                             "@T/d1/alpha" if h == "pipe" else r.choice(ARGS if h == "R" else [a for a in ARGS if SAFE(a)])])
            ops.append(["export", e, "VF_X", r.choice(["v", "", "a b"])])
            ops.append(["path", e, r.choice(["@B", "@T/d1:@B", "@B:@T/d1"])])
            ops.append(["complete", e, r.choice(["alpha", "alpha", "nosuch", "@T/d1/alpha", "a-b", "b.c", "x1", "a'q", "$(x)"]), args, [W(r) for n in range(r.choice([1, 2, 5, 40]))]])
        else:
            if not scopes or r.random() < 0.15:
                n = "st"[len(scopes)] if len(scopes) < 2 else "s"
                ops.append(["scope", n, e])
                scopes = list(dict.fromkeys(scopes + [n]))
            s = r.choice(scopes)
            ops.append(["assign", s, r.choice(["var_a", "var_b", "alpha", "VF_X", "PATH_", "cd"])])
            if what == "tab":
                ops.append(["path", e, r.choice(["@T/d1:@B", "d1:@B", "@B:@T/d2"])])
                ops.append(["tab", s, r.choice(["al", "var_", "x = al", "alpha(1) | be", "f(x, va", "cd.", "cd.d1.", "print(cd.", "alpha.", "alpha.sub.", "alpha | beta.", "env.al",
                                                "clear_dir_cache.", "x1.", "bet", "(alpha + cd.", "cd.PARENT."]), "public"])
            else:
                ops.append(["names", s])
    return {"scn": "listing", "p": {"dirs": dirs, "ops": ops}, "cfg": {"env": {"HOME_": "1"}}}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


class FS(object):
    """The files of the case: paths to d, f or where links lead"""
    def __init__(self, top, tools, obs, dirs, root):
        self.top, self.tools, self.obs, self.root = top, tools, obs, root
        self.at = {top + "/" + d: "d" for d in dirs}
        self.at[top] = "d"
        self.hidden = set()

    def p(self, x):
        return x.replace("@T", self.top).replace("@B", self.tools)

    def resolve(self, path, n=0):
        """The real path, None if there is none"""
        if n > 20:
            return None
        if path == self.tools:
            return path
        parts = path[len(self.top):].strip("/").split("/") if path.startswith(self.top) else None
        if parts is None:
            return False
        cur = self.top
        for x in parts:
            if not x:
                continue
            if self.at.get(cur) != "d" or (cur in self.hidden and not self.root):
                return None
            t = self.at.get(cur + "/" + x)
            if t is None:
                return None
            cur += "/" + x
            if t not in "df":
                cur = self.resolve(t, n + 1)
                if not cur:
                    return cur
        return cur

    def isdir(self, path):
        r = self.resolve(path)
        return r if not r else r == self.tools or self.at.get(r) == "d"

    def listdir(self, path):
        """None if it can't be"""
        r = self.resolve(path)
        if r is False:
            return False
        if r == self.tools:
            return self.obs["listed"]
        if r is None or self.at.get(r) != "d" or (r in self.hidden and not self.root):
            return None
        return [p[len(r) + 1:] for p in self.at if p.startswith(r + "/") and "/" not in p[len(r) + 1:]]


def listed(fs, obs, env, builts):
    """What is in the PATH of an environment: None if that's beyond this model"""
    path = env["exports"].get("PATH")
    res = list(builts)
    for e in (obs["defpath"] if path is None else path).split(":"):
        d = os.path.normpath(os.path.join(env["cwd"], e))
        if d in obs["system"]:
            res += obs["system"][d] or []
            continue
        if d == fs.top.rpartition("/")[0] or not d.startswith(fs.top) and d != fs.tools:
            return None
        res += fs.listdir(d) or []
    return res


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    fs = FS(obs["top"], obs["tools"], obs, p["dirs"], obs["root"])
    envs, scopes = {}, {}
    builts = set(obs["builtins"])
    for i, (op, o) in enumerate(zip(p["ops"], obs["ops"])):
        k = op[0]
        what = "operation %d %s" % (i, str(op)[:300])
        exc = None
        forks = 0
        names = None
        if k == "env":
            envs[op[1]] = {"cwd": fs.p(op[2]), "exports": {"PATH": fs.tools}, "cache": None, "interactive": op[3]}
        elif k == "copy":
            e = envs[op[2]]
            if not fs.isdir(e["cwd"]):
                # fs.isdir is None or False: it has been removed
                exc = "OSError"
            else:
                envs[op[1]] = dict(e, exports=dict(e["exports"]), cache=None)
        elif k == "path":
            if op[2] is None:
                envs[op[1]]["exports"].pop("PATH", None)
            else:
                envs[op[1]]["exports"]["PATH"] = fs.p(op[2])
        elif k == "export":
            envs[op[1]]["exports"][op[2]] = op[3]
        elif k == "cd":
            e = envs[op[1]]
            if op[2] == "~" or not os.path.normpath(os.path.join(e["cwd"], fs.p(op[2]))).startswith(fs.top):
                j.count("elsewhere")
                return
            d = os.path.normpath(os.path.join(e["cwd"], fs.p(op[2])))
            if fs.isdir(d):
                e["cwd"] = d
            else:
                exc = "OSError"
        elif k in ("file", "mkdir", "link"):
            q = fs.p(op[1])
            d = fs.resolve(q.rpartition("/")[0])
            there = d and (d + "/" + q.rpartition("/")[2])
            if "exc" not in o:
                if k == "file" and fs.resolve(q) and fs.resolve(q) != there:
                    pass # Written through a link
                elif k == "file" and there and fs.at.get(there) not in (None, "f"):
                    t = fs.at[there]
                    fs.at[t] = "f"
                else:
                    fs.at[there] = "d" if k == "mkdir" else "f" if k == "file" else fs.p(op[2])
            exc = o.get("exc")
        elif k == "rm":
            q = fs.p(op[1])
            if "exc" not in o:
                d = fs.resolve(q.rpartition("/")[0])
                fs.at.pop(d + "/" + q.rpartition("/")[2], None)
            exc = o.get("exc")
        elif k == "hide":
            fs.hidden.add(fs.p(op[1]))
        elif k == "register":
            builts.add(op[1])
        elif k == "clear":
            envs[op[1]]["cache"] = None
            envs[op[1]]["cleared"] = True
        elif k in ("dir", "changing"):
            e = envs[op[1]]
            if e["cache"] is None:
                if e["exports"].get("PATH") is None:
                    j.count("lists with no PATH")
                if e.get("cleared"):
                    j.count("lists after clearing")
                e["cache"] = listed(fs, obs, e, builts)
                if e["cache"] is None:
                    return
            else:
                j.count("cached lists")
            if k == "dir":
                j.count("environments listed")
                j.count("names listed", len(o.get("dir", [])))
                j.nontrivial()
                j.eq(sorted(set(o.get("dir", []))), sorted(set(e["cache"])), "commands", "%s: names listed" % what)
                j.eq(o.get("dir"), sorted(o.get("dir", [])), "order", "%s: order" % what)
        elif k == "cddir":
            e = envs[op[1]]
            args = [{"PARENT": "..", "ROOT": "/"}.get(a, a) for a in map(fs.p, op[2])]
            d = os.path.join(e["cwd"], *args)
            n = os.path.normpath(d)
            if (os.path.join(*args) if args else ".").split("/")[0] == "~":
                continue # The home directory
            exp = fs.listdir(n) if n.startswith(fs.top) else False
            j.count("cd listed")
            if exp is False:
                continue
            names = [x for x in exp or [] if fs.isdir(n + "/" + x)] + ["PARENT", "ROOT"]
            if n in fs.hidden and not fs.root:
                names = ["PARENT", "ROOT"]
            j.count("cd directories listed", len(names) - 2)
            j.nontrivial()
            j.eq(sorted(set(o.get("dir", []))), sorted(set(names)), "directories", "%s in %s: directories listed" % (what, e["cwd"]))
        elif k == "builtin":
            names = {"magic": ["dark", "light"]}.get(op[2], []) if op[2] in builts else None
            if op[2] in ("bg", "fg", "clear_dir_cache", "magic") and names is not None:
                j.eq(o.get("dir"), names, "builtins", what)
            else:
                forks = o["forks"]
        elif k == "parts":
            j.eq(sorted(o.get("dir", [])), ["dst", "src"] if op[4] == "pipe" else sorted(o.get("dir", [])), "parts", what)
        elif k == "complete":
            e = envs[op[1]]
            if not fs.isdir(e["cwd"]) or fs.p(op[2]) in builts:
                return
            forks = 1
            words = [fs.p(op[2])]
            for how, a in op[3]:
                words += ["--%s=%s" % (n.replace("_", "-"), v) for n, v in a.items()] if how == "opts" else ["/dev/fd/X"] if how == "pipe" else [fs.p(a) if how == "arg" else a]
            got = bytes.fromhex(o.get("comp", "")).decode("utf-8", "surrogateescape").split("\0")[:-1]
            j.count("commands completed")
            j.count("special arguments", any(a in ARGS and a != "ab" for how, a in op[3] if how != "opts"))
            j.nontrivial()
            j.eq(got[3:], words + [""], "arguments", "%s: words bash was asked to complete" % what)
            j.eq(got[:3], [str(len(words)), e["cwd"], e["exports"].get("VF_X", "unset")], "environment", "%s: word completed, directory and variable" % what)
            j.eq(sorted(set(x for x in o.get("dir", []) if x)), sorted(set(op[4])), "completions", "%s: words offered" % what)
        elif k == "scope":
            scopes[op[1]] = {"env": op[2], "vars": {"env"}}
        elif k == "assign":
            s = scopes[op[1]]
            if op[2] in envs[s["env"]]["exports"]:
                envs[s["env"]]["exports"][op[2]] = "value"
            else:
                s["vars"].add(op[2])
        elif k in ("names", "tab"):
            s = scopes[op[1]]
            e = envs[s["env"]]
            if e["cache"] is None:
                e["cache"] = listed(fs, obs, e, builts)
                if e["cache"] is None:
                    return
            else:
                j.count("cached lists")
            names = set(e["cache"]) | s["vars"] | set(e["exports"])
            j.nontrivial()
            if k == "names":
                j.count("scopes listed")
                got = set(o.get("dir", []))
                j.eq(sorted(names - got), [], "scope", "%s: names missing" % what)
                base = set("__builtins__ VF_COMP VF_WORDS VF_MARKS put_".split()) | names
                other = [n for n in got - base if not n.isupper() and not n.startswith("BASH_FUNC") and n not in os.environ and not n.startswith("_")]
                j.eq(sorted(other), [], "scope", "%s: names there are not" % what)
            else:
                if e["cwd"] not in fs.at or o["nowd"]:
                    return
                j.count("completed in the shell")
                forks = o["forks"]
                text = op[2]
                word = ""
                while text and (text[-1].isalnum() or text[-1] == "_"):
                    word = text[-1] + word
                    text = text[:-1]
                got = set(x[len(text):] for x in o.get("dir", []))
                if text.endswith("cd.") or text.endswith("cd.d1.") or text.endswith("cd.PARENT."):
                    if "cd" in s["vars"]:
                        continue
                    d = os.path.normpath(e["cwd"] + {"": "", "d1": "/d1", "PARENT": "/.."}[text.rstrip(".").rpartition("cd")[2].strip(".")])
                    exp = fs.listdir(d) if d.startswith(fs.top) else []
                    names = ["PARENT", "ROOT"] + [x for x in exp or [] if fs.isdir(d + "/" + x) and x.isidentifier()]
                    j.eq(sorted(n for n in names if n not in got), [], "shell completion", "%s: directories missing" % what)
                elif not text.endswith("."):
                    ids = [n for n in names if n.isidentifier() and n.lower().startswith(word.lower())]
                    j.eq(sorted(n for n in ids if n not in got), [], "shell completion", "%s: names missing" % what)
                    other = [n for n in got if n not in names and not hasattr(builtins, n) and not keyword.iskeyword(n)]
                    j.eq(sorted(other), [], "shell completion", "%s: names there are not" % what)
        j.eq(o.get("exc") and "OSError", exc and "OSError", "exceptions", "%s: raised" % what)
        if k != "parts":
            j.eq(o["forks"], forks, "processes", "%s: processes started" % what)
        j.eq(o["changed"], [], "changed", "%s: environments changed" % what)
        interactive = any(e["interactive"] for e in envs.values())
        if not (k in ("env", "copy", "cd") and interactive):
            j.eq(o["wd"], False, "changed", "%s: directory of the shell changed" % what)
        if "ran" in o:
            j.eq(o["ran"], "", "run", "%s: commands run" % what)
        if o.get("exc") and k in ("copy",):
            return
    J.check_conserved(j, res, tmp=False)
