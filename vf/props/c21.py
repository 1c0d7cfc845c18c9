"""C21: pysh modules are imported like Python modules"""
import json

from .. import gen, judge as J

RULE = ("Random sets of .pysh and .py modules - equal names on several paths, in packages, namespace packages and nested ones, unreadable ones, directories of that "
        "name - on search paths of absolute, relative, empty, missing and odd entries, that import each other in circles, cd, set variables and run commands; "
        "5-25 imports in all forms (import, as, from, *, importlib, in pysh), reloads, calls and assignments, with files changed and removed and the "
        "importer's directory and variables changed between; what was run, values, names and errors are compared with a model of Python's rules, and the "
        "importing environment must be left alone; non-trivial if a pysh module was run, distinct by files and operations")
QUICK = {"cases": 600, "budget": 40}
THOROUGH = {"cases": 40000, "budget": 400}
REQUIRED = {"imports": 1000, "pysh modules run": 600, "pysh modules of packages run": 150, "imports that fail": 150, "reloads": 60, "shadowed modules": 100,
            "values compared": 400, "calls compared": 60, "commands compared": 40}
ASSUMPTIONS = ["Modules do not raise exceptions, other than SystemExit",
               "No directory that is not a package has the name of a pysh module beside or after it: to Python it is a namespace package"]

VARS = ["C21A", "C21B", "C21C"]


class Import(Exception):
    pass


class Exit(Exception):
    pass


class Bad(Exception):
    pass


class Unsure(Exception):
    pass


class Mod(object):
    def __init__(self, name, lang, path=None):
        self.name, self.lang, self.path = name, lang, path
        self.attrs = {}
        self.cwd = self.exports = None
        self.fns = {}
        self.parent_dir = None


class World(object):
    """Python's rules"""

    def __init__(self, p):
        self.files = {k: v for k, v in p["scripts"].items()}
        self.dirs = set()
        for d in p["dirs"]:
            self.adddir(d)
        for f in self.files:
            self.adddir(f.rpartition("/")[0])
        self.path = [e["dir"] if "dir" in e else "" for e in p["path"] if "dir" in e or e["odd"] == "empty"]
        self.cwd = p["cwd"]
        self.exports = dict(p["exports"])
        self.mods = {}
        self.log = []
        self.forks = 0
        self.stats = {}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def adddir(self, d):
        while d:
            self.dirs.add(d)
            d = d.rpartition("/")[0]

    def find(self, name, path):
        """(kind, file or paths) of a module"""
        last = name.rpartition(".")[2]
        ns = []
        j = lambda d, f: d + "/" + f if d else f
        hidden = False
        for d in path:
            if d and d not in self.dirs:
                continue
            if j(d, last + "/__init__.py") in self.files:
                found = ("package", j(d, last + "/__init__.py"), [j(d, last)])
                break
            if j(d, last + ".py") in self.files:
                found = ("py", j(d, last + ".py"), None)
                break
            if j(d, last) in self.dirs:
                ns.append(j(d, last))
        else:
            found = None
        pysh = [j(d, last + ".pysh") for d in path if j(d, last + ".pysh") in self.files]
        if found:
            if pysh:
                self.stat("shadowed modules")
            return found
        if ns:
            if pysh:
                raise Unsure("namespace package or module")
            return ("namespace", None, ns)
        if len(pysh) > 1:
            self.stat("shadowed modules")
        if pysh:
            return ("pysh", pysh[0], None)
        return None

    def load(self, name):
        """Imports a module and returns it"""
        d = name
        while "." in d:
            d = d.rpartition(".")[0]
            if name in self.mods and d not in self.mods:
                raise Unsure("module without its package")
        if name in self.mods:
            return self.mods[name]
        parent, _, tail = name.rpartition(".")
        path = self.path
        if parent:
            p = self.load(parent)
            if name in self.mods:
                return self.mods[name]
            if p.path is None:
                raise Import("%s is not a package" % parent)
            path = p.path
        found = self.find(name, path)
        if found is None:
            raise Import("no module %s" % name)
        kind, file, mpath = found
        m = Mod(name, "pysh" if kind == "pysh" else "py", mpath)
        m.kind = kind
        if kind == "pysh":
            m.cwd = self.cwd
            m.exports = dict(self.exports)
        self.mods[name] = m
        if file is not None:
            try:
                self.run(m, file)
            except Exception:
                self.mods.pop(name, None)
                raise
        m = self.mods[name]
        if parent:
            self.mods[parent].attrs[tail] = ["module", name] if parent in self.mods else None
        return m

    def run(self, m, file):
        script = self.files[file]
        if script["bad"]:
            raise Bad()
        if m.lang == "pysh":
            self.stat("pysh modules run")
            if "." in m.name:
                self.stat("pysh modules of packages run")
        self.log.append(script["id"])
        for s in script["stmts"]:
            self.stmt(m, s)

    def assign(self, m, name, v):
        if m.lang == "pysh" and name in m.exports:
            m.exports[name] = v[1]
        else:
            m.attrs[name] = v

    def get(self, m, name):
        if name in m.attrs:
            return m.attrs[name]
        if m.lang == "pysh" and name in m.exports:
            return ["v", m.exports[name]]
        return None

    def stmt(self, m, s):
        k = s[0]
        if k == "set":
            self.assign(m, s[1], ["v", s[2]])
        elif k == "imp":
            form, target, name = s[1:]
            try:
                if form == "import":
                    self.load(target)
                    # What is in sys.modules by then
                    top = target.split(".")[0]
                    self.assign(m, top, ["module", self.mods[top].name])
                elif form == "as":
                    self.load(target)
                    self.assign(m, name, ["module", target])
                elif form == "rel":
                    package = m.name if m.path is not None else m.name.rpartition(".")[0]
                    if not package or package not in self.mods:
                        raise Import("relative import without package")
                    full = package + "." + target
                    p = self.mods[package]
                    if target not in p.attrs:
                        self.load(full)
                    self.assign(m, name, ["module", full])
            except Bad:
                if m.lang == "pysh":
                    raise Unsure("other exceptions than ImportError in a module")
                raise
            except Import:
                m.attrs["missing"] = ["v", m.attrs.get("missing", ["v", []])[1] + [target]]
        elif k == "cd":
            m.cwd = s[1]
        elif k == "cwd":
            self.assign(m, s[1], ["cwd", m.cwd])
            self.forks += 1
        elif k == "var":
            v = m.exports.get(s[2])
            self.assign(m, s[1], ["b", (("+" + v if v is not None else "-") + "\n").encode().hex()])
            self.forks += 1
        elif k == "fn":
            m.attrs[s[1]] = ["other", "<class 'function'>"]
            m.fns[s[1]] = s[2:]
        elif k == "class":
            m.attrs[s[1]] = ["other", "<class 'type'>"]
        elif k == "exit":
            raise Exit()

    def reload(self, name):
        m = self.mods[name]
        self.stat("reloads")
        parent = name.rpartition(".")[0]
        path = self.path
        if parent:
            if parent not in self.mods:
                raise Import("parent not in sys.modules")
            path = self.mods[parent].path
        found = self.find(name, path)
        if found is None:
            raise Import("gone")
        kind, file, mpath = found
        if kind != m.kind or kind == "namespace":
            raise Unsure("another kind of module")
        m.path = mpath
        self.run(m, file)

    def call(self, m, name):
        kind, arg = m.fns[name]
        if kind == "get":
            return self.get(m, arg)
        if kind == "inc":
            v = self.get(m, arg)
            v = ["v", v[1] + "+" if isinstance(v[1], str) else [v[1], 1]]
            self.assign(m, arg, v)
            return v
        if kind == "cwd":
            self.forks += 1
            return ["cwd", m.cwd]
        if kind == "var":
            self.forks += 1
            v = m.exports.get(arg)
            return ["b", (("+" + v if v is not None else "-") + "\n").encode().hex()]


def source(script):
    """Of a script"""
    if script["bad"]:
        return "\xff\xfe\xff"
    out = ["c21_log(%d)" % script["id"]]
    for s in script["stmts"]:
        k = s[0]
        if k == "set":
            out.append("%s = %r" % (s[1], s[2]))
        elif k == "imp":
            form, target, name = s[1:]
            line = {"import": "import %s" % target, "as": "import %s as %s" % (target, name), "rel": "from . import %s as %s" % (target, name)}[form]
            out += ["try:", "    " + line, "except ImportError:", "    try: missing = missing + [%r]" % target if script["lang"] == "py" else
                    "    missing = (missing if isinstance(missing, list) else []) + [%r]" % target]
            if script["lang"] == "py":
                out += ["    except NameError: missing = [%r]" % target]
        elif k == "cd":
            out.append("env._cd(ROOT_ + '/' + %r)" % s[1] if s[2] else "+cd(ROOT_ + '/' + %r)" % s[1])
        elif k == "cwd":
            out.append("%s = bytes(vh('cwd'))" % s[1])
        elif k == "var":
            out.append("%s = bytes(vh('getenv:%s'))" % (s[1], s[2]))
        elif k == "fn":
            name, kind, arg = s[1:]
            out += ["def %s():" % name]
            out += {"get": ["    return %s" % arg],
                    "inc": ["    global %s" % arg, "    %s = %s + '+' if isinstance(%s, str) else [%s, 1]" % (arg, arg, arg, arg), "    return %s" % arg],
                    "cwd": ["    return bytes(vh('cwd'))"],
                    "var": ["    return bytes(vh('getenv:%s'))" % arg]}[kind]
        elif k == "class":
            out += ["class %s: pass" % s[1]]
        elif k == "warn":
            out.append("__import__('warnings').warn('warning%d')" % script["id"])
        elif k == "exit":
            out.append("raise SystemExit(3)")
    return "\n".join(out) + script.get("end", "\n")


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)
        self.n = 0
        self.prefix = "c21_%06x_" % rng.randrange(1 << 24)
        self.tops = [self.prefix + x for x in "abcde\u00e5"[:rng.choice([1, 2, 4, 6])]]
        self.subs = ["s", "t", "u"][:rng.choice([1, 2, 3])]
        self.subpackages = ["q"] if rng.random() < 0.4 else []
        self.calm = rng.random() < 0.6      # Nothing is missing, mostly

    def name(self):
        r = self.rng
        n = r.choice(self.tops)
        while r.random() < 0.45 and n.count(".") < 2:
            n += "." + r.choice(self.subs + self.subpackages)
        return n

    def script(self, lang):
        r = self.rng
        self.n += 1
        st = [["set", "ident", "i%d" % self.n]]
        for i in range(r.choice([0, 0, 1, 1, 2])):
            form = r.choice(["import", "as", "rel"])
            st.append(["imp", form, r.choice(self.subs) if form == "rel" else self.name(), "m%d" % i])
        for i in range(r.choice([0, 1, 2, 4])):
            k = r.random()
            if k < 0.3:
                st.append(["set", r.choice(["x", "y", "z", "_p"]), r.choice([1, "v%d" % self.n, "", None, [1, "\u20ac"]])])
            elif k < 0.4:
                st.append(["class", "K"])
            elif k < 0.55 or lang == "py":
                st.append(["fn", "f%d" % i, r.choice(["get", "inc"]), "ident"])
            elif k < 0.65:
                st.append(["set", r.choice(VARS), "w%d" % self.n])
            elif k < 0.69:
                st.append(["warn"])
            elif k < 0.75:
                st.append(["cd", r.choice(["d1", "d2"]), r.random() < 0.5])
            elif k < 0.85:
                st.append(["cwd", "where"])
            elif k < 0.93:
                st.append(["var", "var", r.choice(VARS)])
            else:
                st.append(["fn", "g%d" % i, r.choice(["cwd", "var"]), r.choice(VARS)])
        if r.random() < 0.03:
            st.append(["exit"])
        return {"id": self.n, "lang": lang, "stmts": st, "bad": lang == "pysh" and r.random() < 0.02, "end": r.choice(["\n", "\n", "", "\n\n# \u20ac", "\n  \n"])}


def one(rng, tier):
    g = G(rng)
    r = rng
    roots = ["P%d" % i for i in range(r.choice([1, 2, 3, 4]))]
    scripts = {}
    dirs = set(roots) | {"d1", "d2"}

    def module(d, n, lang=None):
        lang = lang or r.choice(["pysh", "pysh", "pysh", "py"])
        scripts["%s/%s.%s" % (d, n, lang)] = g.script(lang)

    def package(d, n, depth):
        full = d + "/" + n
        if r.random() < 0.75:
            scripts[full + "/__init__.py"] = g.script("py")
        dirs.add(full)
        for s in g.subs:
            if r.random() < 0.6:
                module(full, s)
        if depth:
            for s in g.subpackages:
                package(full, s, depth - 1)
    packages = [t for t in g.tops if r.random() < 0.4]
    # To be beside a package of the same name
    for root in roots:
        for t in g.tops:
            if t in packages:
                if r.random() < 0.7:
                    package(root, t, 1)
            elif r.random() < 0.6:
                module(root, t)
                if r.random() < 0.1:
                    module(root, t)
            if r.random() < 0.05:
                dirs.add("%s/%s.pysh" % (root, t))
                scripts.pop("%s/%s.pysh" % (root, t), None)
    for t in packages:
        for root in roots:
            # never instead of a package
            if any("%s/%s/__init__.py" % (x, t) in scripts for x in roots) and r.random() < 0.2 and "%s/%s.pysh" % (root, t) not in dirs:
                module(root, t, "pysh")
    path = []
    for root in r.sample(roots, len(roots)):
        path.append({"dir": root, "form": r.choice(["str", "str", "slash", "dots", "rel"])})
        if r.random() < 0.15:
            path.append({"odd": r.choice(["empty", "none", "path", "int", "file", "missing"])})
    if any(e.get("odd") == "empty" or e.get("form") == "rel" for e in path):
        # What is to be found must not change with the directory
        for s in scripts.values():
            s["stmts"] = [x for x in s["stmts"] if x[0] != "cd"]
    if any(e.get("odd") == "empty" for e in path):
        module("", g.tops[0], "pysh")
        k = "/%s.pysh" % g.tops[0]
        scripts[k[1:]] = scripts.pop(k)
    for s in scripts.values():
        if not any(e.get("odd") == "empty" or e.get("form") == "rel" for e in path):
            continue
        s["stmts"] = [x for x in s["stmts"] if x[0] != "cd"]
    rel = any(e.get("odd") == "empty" or e.get("form") == "rel" for e in path)
    p = {"scripts": scripts, "dirs": sorted(dirs), "path": path, "exports": {v: "base " + v for v in VARS if r.random() < 0.7}, "cwd": "." if rel else r.choice(["d1", "d2"]), "prefix": g.prefix}
    # What is imported most is what there is
    ops = []
    w = World(p)
    known = []
    for i in range(r.choice([5, 10, 25])):
        k = r.random()
        name = g.name()
        if g.calm or r.random() < 0.5:
            for t in range(20):
                try:
                    probe(w, name)
                    break
                except (Import, Unsure):
                    name = g.name()
        if known and r.random() < 0.3:
            name = r.choice(known)
        if k < 0.5 or not known:
            form = r.choice(["import", "as", "importlib", "from", "attr", "star", "pysh"])
            if form == "from" and "." not in name:
                form = "as"
            ops.append(["import", name, form] + (["ident"] if form == "attr" else []))
            known.append(name)
        elif k < 0.6:
            ops.append(["reload", name])
        elif k < 0.64:
            ops.append(["forget", name])
        elif k < 0.7 and scripts:
            f = r.choice(sorted(scripts))
            ops.append(["write", f, None, g.script(scripts[f]["lang"])])
            if any(e.get("odd") == "empty" or e.get("form") == "rel" for e in path):
                ops[-1][3]["stmts"] = [x for x in ops[-1][3]["stmts"] if x[0] != "cd"]
        elif k < 0.73 and scripts:
            ops.append(["rm", r.choice(sorted(scripts))])
        elif k < 0.77:
            ops.append(["set", name, r.choice(["ident", "x", "C21A", "new"]), "set%d" % i])
        elif k < 0.83:
            ops.append(["get", name, r.choice(["ident", "x", "C21A", "m0", "where", "var", "new", "missing"])])
        elif k < 0.86:
            ops.append(["dir", name])
        elif k < 0.93:
            ops.append(["call", name, None])
        elif k < 0.95 and not rel:
            ops.append(["cd", r.choice(["d1", "d2"])])
        elif k < 0.97:
            ops.append(["export", r.choice(VARS), "e%d" % i])
        else:
            ops.append(["name", name, None])
    # Only names that are there are asked for
    w = World(p)
    res = []
    try:
        for op in ops:
            m = w.mods.get(op[1]) if op[0] in ("get", "set", "call", "name") else None
            if op[0] == "get" and (m is None or w.get(m, op[2]) is None):
                continue
            if op[0] == "set" and (m is None or m.kind == "namespace"):
                continue
            if op[0] == "call":
                if m is None or not m.fns:
                    continue
                op[2] = r.choice(sorted(m.fns))
            if op[0] == "name":
                if m is None or m.kind == "namespace":
                    continue
                op[2] = r.choice(sorted(m.fns)) if m.fns and r.random() < 0.5 else "K" if "K" in m.attrs else None
            res.append(op)
            try:
                step(w, op)
            except (Import, Exit, Bad, AttributeError):
                pass
    except Unsure:
        res.pop()
    p["ops"] = res
    p["files"] = {f: source(x) for f, x in scripts.items()}
    for op in res:
        if op[0] == "write":
            op[2] = source(op[3])
    return {"scn": "load", "p": p, "delays": {}, "cfg": {}}


def probe(w, name):
    import copy
    if name in w.mods:
        return
    if "." in name:
        probe(w, name.rpartition(".")[0])
        path = None
        p = name.rpartition(".")[0]
        f = w.find(p, w.path) if "." not in p else None
        if "." in p:
            return
        if not f or f[2] is None:
            raise Import()
        path = f[2]
    else:
        path = w.path
    if w.find(name, path) is None:
        raise Import()


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def step(w, op):
    """What the operation has to give"""
    try:
        return step_(w, op)
    except KeyError:
        raise Unsure("modules that failed half way, importing each other")


def step_(w, op):
    k = op[0]
    if k == "import":
        form, name = op[2], op[1]
        parent, _, tail = name.rpartition(".")
        if form == "import":
            w.load(name)
            return ["module", name.split(".")[0]]
        if form == "from":
            p = w.load(parent)
            if tail in p.attrs:
                return p.attrs[tail]
            if p.path is None:
                raise Unsure("attribute of no package") if p.lang == "pysh" else Import("cannot import name")
            w.load(name)
            return ["module", name]
        m = w.load(name)
        if form in ("as", "importlib", "pysh"):
            return ["module", name]
        if form == "attr":
            v = w.get(m, op[3])
            if v is None:
                if m.lang == "pysh":
                    raise Unsure()
                raise Import("cannot import name")
            return v
        if form == "star":
            return sorted([n, v] for n, v in m.attrs.items() if not n.startswith("_") and n != "env")
    elif k == "reload":
        if op[1] in w.mods:
            w.reload(op[1])
    elif k == "forget":
        for n in list(w.mods):
            if (n + ".").startswith(op[1] + "."):
                del w.mods[n]
    elif k == "write":
        w.files[op[1]] = op[3]
        w.adddir(op[1].rpartition("/")[0])
    elif k == "rm":
        w.files.pop(op[1], None)
    elif k == "set":
        w.assign(w.mods[op[1]], op[2], ["v", op[3]])
    elif k == "get":
        m = w.mods[op[1]]
        v = w.get(m, op[2])
        if v is None:
            raise Unsure()
        return v
    elif k == "dir":
        if op[1] in w.mods:
            m = w.mods[op[1]]
            return sorted([n for n in m.attrs if not n.startswith("_")] + (["env"] if m.lang == "pysh" else []))
    elif k == "call":
        m = w.mods[op[1]]
        return w.call(m, op[2])
    elif k == "cd":
        w.cwd = op[1]
    elif k == "export":
        w.exports[op[1]] = op[2]
    elif k == "name":
        m = w.mods[op[1]]
        return [m.name, m.name if op[2] else None]
    return None


def judge(case, res, j, workdir):
    p = case["p"]
    J.observed(j, res)
    w = World(p)
    root = res["obs"]["root"].rstrip("/")

    def compared(v):
        if isinstance(v, list) and v and v[0] == "cwd":
            return ["b", ((root + "/" + v[1]).replace("/.", "") + "\n").encode().hex()]
        if isinstance(v, list):
            return [compared(x) for x in v]
        return v
    for i, (op, o) in enumerate(zip(p["ops"], res["obs"]["ops"])):
        what = "operation %d %s" % (i, json.dumps(op[:3])[:200])
        w.log = []
        w.forks = 0
        exp = exc = None
        try:
            exp = step(w, op)
        except Import as e:
            exc = "ImportError"
        except Exit:
            exc = "SystemExit"
        except Bad:
            exc = "UnicodeDecodeError"
        except Unsure:
            j.count("not claimed")
            break
        j.eq(o.get("exc"), exc, "exceptions", "%s: raised%s" % (what, " (%s)" % o["text"] if "text" in o else ""))
        if op[0] == "import":
            j.count("imports")
            if exc:
                j.count("imports that fail")
        j.eq(o["log"], w.log, "run", "%s: modules run" % what)
        j.eq(o["forked"], w.forks, "processes", "%s: processes started" % what)
        if exp is not None or op[0] in ("import", "get", "call", "dir"):
            if not exc:
                j.eq(o.get("value"), compared(exp), "values", "%s: value" % what)
                j.count("values compared")
                j.count("calls compared", op[0] == "call")
                j.count("commands compared", w.forks)
        if "same" in o:
            j.check(o["same"], "same", "%s: not the module of sys.modules" % what)
        j.eq(o["modules"], sorted(w.mods), "modules", "%s: modules in sys.modules" % what)
        j.check(not o["changed"], "environment", lambda: "%s: changed of the importing program: %s" % (what, o["changed"]))
        if o.get("exc") != exc:
            break
    for k, v in w.stats.items():
        j.count(k, v)
    if w.stats.get("pysh modules run"):
        j.nontrivial()
    J.check_conserved(j, res, tmp=False)
