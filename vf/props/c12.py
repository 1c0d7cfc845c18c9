"""C12: environments are isolated from each other and from the Python process"""
import os

from .. import gen, judge as J

RULE = ("Random histories of 5-40 operations on up to 7 environments, copied from each other in all ways: cd in all forms (failing too), setting and "
        "deleting environment variables, setting default redirects, looking commands up in PATH, changes of the Python process itself, and pipelines mixing "
        "environments, built long before they are run and run while the environments change; after every operation the directory and "
        "variables of every environment and of Python, and of every command run, are compared with a model; non-trivial if a command's "
        "environment was compared after a change, distinct by history")
QUICK = {"cases": 400, "budget": 25}
THOROUGH = {"cases": 40000, "budget": 400}
REQUIRED = {"command environments compared": 1500, "operations": 5000, "failed cds": 150, "copies": 800, "default redirects seen": 100, "commands found": 25, "commands not found": 10}

DIRS = ["d1", "d1/s1", "d1/s2", "d2", "d2/s1", "d[3]", "d 4", "\u00e5"]
VARS = ["AA", "BB", "C_C", "LANG", "HOME2", "dd", "X"]
PATHS = ["d1", "d2", "s1", "..", "../..", ".", "@D", "@D/d1", "@D/d2/s1", "@D/d1/../d2", "d1/s2", "../d2", "d[3]", "d 4", "\u00e5", "link", "link/s1", "@D/link/", "d1/",
         "./d1", "@D/d1//s1", "/", "@D/./d 4", "nosuch", "@D/nosuch", "file", "@D/file", "d1/nosuch", "", "~nosuchuser", "d*", "@D/closed"]


class G(gen.Gen):
    def value(self):
        r = self.rng
        return r.choice([self.text(8).replace("\0", ""), "", "v%d" % r.randrange(100), "a=b", "\n", "\udcff\udc80", "@D/x", "%(AA)s", "*", "~", "x" * 5000])


def one(rng, tier):
    g = G(rng)
    ops = []
    envs = ["0"]
    inter = set()
    built = {}
    running = {}
    cds = []

    def cmd(e):
        id = g.id("C")
        return id, ["c", ["@V", "nop:" + id, "dump:@D/dump_" + id], {"env": e}]

    def pipeline():
        n = rng.choice([1, 1, 2, 2, 3])
        es = [rng.choice(envs) for i in range(n)]
        ids = {}
        parts = []
        for i, e in enumerate(es):
            id, c = cmd(e)
            ids[id] = e
            if i:
                c[1].append("drain")
            if rng.random() < 0.15:
                e2 = rng.choice(envs)
                id2, c2 = cmd(e2)
                ids[id2] = e2
                c[1] += ["args", {"n": c2}]
            parts.append(c)
        op = rng.choice(["|", "|", "+"])
        node = parts[0]
        for x in parts[1:]:
            node = [op, node, x]
        return node, ids, es[0]
    for i in range(rng.choice([5, 10, 20, 40])):
        k = rng.random()
        e = rng.choice(envs)
        if (k < 0.15 or len(envs) < 2) and len(envs) < 7:
            new = str(len(envs))
            how = rng.choice(["copy", "copy", "cwd", "pos", "item", "exports", "interactive", "not interactive", "class"])
            arg = None
            if how in ("cwd", "pos", "item"):
                arg = rng.choice(["@D/d1", "@D/d2", "@D/d 4", ".", "@D/d[3]"])
            elif how == "class":
                arg = rng.choice(["@D/d1", "@D"])
            elif how == "exports":
                arg = {rng.choice(VARS): g.value() for i in range(rng.choice([0, 1, 3]))}
            ops.append(["new", new, e, how, arg])
            envs.append(new)
            if how == "interactive" or e in inter and how not in ("class", "not interactive"):
                inter.add(new)
        elif k < 0.38:
            how = rng.choice(["_cd", "+", "+", "attr", "~", "call", "await", "scope", "repr"])
            path = [rng.choice(PATHS)]
            if how == "attr":
                path = [rng.choice(["d1", "d2", "s1", "PARENT", "ROOT", "d 4", "nosuch"])]
                if rng.random() < 0.3:
                    path.append(rng.choice(["s1", "PARENT", "s2"]))
            elif how != "_cd" and rng.random() < 0.25:
                path = [rng.choice(["d1", "d2", "@D", "..", "PARENT"]), rng.choice(["s1", "s2", "..", "@D/d2", "PARENT"])]
            elif how in ("+", "scope", "~", "call") and rng.random() < 0.1:
                path = []
            if e not in inter:
                path = [x for x in path if x != "@D/closed"] or ["nosuch"]
            if cds and rng.random() < 0.3:
                e, path = rng.choice(cds)
                how = rng.choice(["+", "repr", "repr", "~", "await"])
            elif how not in ("_cd", "attr") and path:
                cds.append([e, path])
            ops.append(["cd", e, path, how])
        elif k < 0.52:
            how = rng.choice(["dict", "dict", "scope", "exports"])
            ops.append(["set", e, rng.choice(VARS), g.value(), how])
        elif k < 0.56:
            ops.append(["del", e, rng.choice(VARS)])
        elif k < 0.63:
            form = rng.choice(["|", "obj", "obj", "new"])
            spec = {"form": form, "fd": 1, "flag": os.O_WRONLY | os.O_CREAT, "to": "@D/r%d" % rng.randrange(4)}
            if form == "obj":
                spec["fd"] = rng.choice([1, 2, 5, 7])
            if form == "new":
                if len(envs) >= 7:
                    continue
                spec["fd"] = rng.choice([1, 5])
                spec["new"] = str(len(envs))
                envs.append(spec["new"])
                if e in inter:
                    inter.add(spec["new"])
            if form == "|" and rng.random() < 0.3:
                spec["to"] = None
            if rng.random() < 0.15 and form != "new":
                spec.update(form="ror", fd=0, to="@D/file")
            ops.append(["default", e, spec])
        elif k < 0.645:
            path = None
            if rng.random() < 0.8:
                path = ":".join(rng.choice(["@D/pa", "@D/pb", "@D/pb", "@D/pc", "@D/d1", "@D/nosuch", "pa", "d2", "../d2", ".", "@D/d2", "/bin", "@D/file"])
                                for n in range(rng.choice([1, 2, 3, 5])))
            ops.append(["find", e, path])
        elif k < 0.67:
            ops.append(["chdir", rng.choice(["@D", "@D/d2", "/"])])
        elif k < 0.7:
            ops.append(["environ", rng.choice(VARS), "py%d" % i])
        elif k < 0.8 or not built:
            pid = "P%d" % len(built)
            node, ids, first = pipeline()
            built[pid] = [ids, first]
            ops.append(["build", pid, node])
        elif k < 0.93:
            pid = rng.choice(sorted(built))
            if pid not in running:
                ops.append(["run", pid, sorted(built[pid][0])])
        elif running and rng.random() < 0.5:
            pid = running.popitem()[0]
            ops.append(["wait", pid, sorted(built[pid][0])])
        else:
            pid = rng.choice(sorted(built))
            if pid not in running:
                running[pid] = 1
                ops.append(["bg", pid])
    for pid in running:
        ops.append(["wait", pid, sorted(built[pid][0])])
    for e in envs:
        id, c = cmd(e)
        pid = "P%d" % len(built)
        built[pid] = [{id: e}, e]
        ops.append(["build", pid, c])
        ops.append(["run", pid, [id]])
    return {"scn": "envs", "p": {"ops": ops, "dirs": DIRS}, "built": built, "cfg": g.cfg(0.1), "delays": g.delays() if rng.random() < 0.3 else {}}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def hx(s):
    return s.encode("utf-8", "surrogateescape").hex()


class Env(object):
    def __init__(self, cwd, exports, inter, redirects):
        self.cwd = cwd
        self.exports = exports
        self.inter = inter
        self.redirects = redirects


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    D = obs["dir"]
    J.observed(j, res)
    home = os.path.dirname(D)
    environ = dict(obs["environ"])
    proc = D
    envs = {"0": Env(D, environ, False, {})}
    snap = {}
    isdir = {D, "/", home} | {os.path.join(D, d) for d in p["dirs"]} | {D + "/link", D + "/link/s1", D + "/link/s2"}
    up = D
    while up != "/":
        up = os.path.dirname(up)
        isdir.add(up)
    sub = lambda s: s.replace("@D", D)
    changed = False

    def real(path):
        return path.replace(D + "/link", D + "/d1")

    def target(e, path):
        if path.startswith("~") and path != "~" and not path.startswith("~/"):
            path = os.path.join(e.cwd, path)
        elif path.startswith("~"):
            path = home + path[1:]
        return os.path.normpath(os.path.join(e.cwd, path))

    def state(ids, first):
        d = envs[first].redirects
        return {id: (real(envs[e].cwd), dict(envs[e].exports), dict(d)) for id, e in ids.items()}

    def compare(dumps, want, i, op, failed):
        if not j.check(not failed, "failed", lambda: "%s failed: %s" % (op, failed)):
            return
        if not j.check(sorted(dumps) == sorted(want), "started", "op %d %s: commands run are %s, expected %s" % (i, op, sorted(dumps), sorted(want))):
            return
        for id, (cwd, env, red) in want.items():
            d = dumps[id]
            what = "op %d, command %s" % (i, id)
            j.eq(bytes.fromhex(d["cwd"]).decode("utf-8", "surrogateescape"), cwd, "cwd", what + ": directory")
            got = {}
            for x in d["env"]:
                k, v = bytes.fromhex(x).split(b"=", 1)
                got[k.hex()] = v.hex()
            if got != env:
                diff = [(bytes.fromhex(k), bytes.fromhex(got.get(k, "3f")), bytes.fromhex(env.get(k, "3f"))) for k in set(got) | set(env) if got.get(k) != env.get(k)]
                j.fail("variables", "%s: variables differ: (name, got, expected): %s" % (what, J_short(diff)))
            for fd, to in red.items():
                if fd in (2, 5, 7) or (len(want) == 1 and fd in (0, 1)):
                    j.eq(d["fds"].get(str(fd)), to, "redirects", "%s: descriptor %d" % (what, fd))
                    j.count("default redirects seen")
            for fd in (5, 7):
                if fd not in red:
                    j.check(str(fd) not in d["fds"] or len(want) > 1, "redirects", "%s: descriptor %d is open" % (what, fd))
            if len(want) == 1 and 1 not in red:
                j.eq(d["fds"].get("1"), D + "/stdout", "redirects", what + ": standard out")
            j.count("command environments compared")
            if changed:
                j.nontrivial()
    if len(obs["log"]) != len(p["ops"]):
        j.fail("log", "only %d operations were run" % len(obs["log"]))
        return
    for i, (op, entry) in enumerate(zip(p["ops"], obs["log"])):
        k = op[0]
        j.count("operations")
        if k == "new":
            _, new, src, how, arg = op
            s = envs[src]
            e = Env(s.cwd, dict(s.exports), s.inter, dict(s.redirects))
            if how == "interactive":
                e.inter = True
            elif how == "not interactive":
                e.inter = False
            elif how in ("cwd", "pos", "item"):
                if e.inter:
                    proc = real(e.cwd)
                e.cwd = target(s, sub(arg))
            elif how == "exports":
                e.exports = {hx(a): hx(sub(b)) for a, b in arg.items()}
            elif how == "class":
                e = Env(target(Env(proc, None, 0, 0), sub(arg)), dict(s.exports), False, {})
            if e.inter:
                proc = real(e.cwd)
            envs[new] = e
            j.count("copies")
        elif k == "cd":
            _, en, path, how = op
            e = envs[en]
            if how == "repr" and not e.inter:
                j.check("cd" in entry["repr"], "repr", "repr() of cd is %r" % entry["repr"])
            else:
                if how == "_cd":
                    t = sub(path[0])
                else:
                    ps = [{"PARENT": "..", "ROOT": "/"}.get(x, sub(x)) for x in path]
                    t = os.path.join(*ps) if ps else "~"
                t = target(e, t)
                if t == D + "/closed":
                    ok = not e.inter
                else:
                    ok = t in isdir
                if ok:
                    e.cwd = t
                    if e.inter:
                        proc = real(t)
                    changed = True
                else:
                    j.count("failed cds")
                j.check(("exc" not in entry) == ok, "cd", lambda: "op %d %s: %s, expected to %s" % (i, op, entry.get("exc", "no error"), "work" if ok else "fail"))
        elif k == "set":
            _, en, name, value, how = op
            e = envs[en]
            if how != "scope" or hx(name) in e.exports:
                e.exports[hx(name)] = hx(sub(value))
            changed = True
        elif k == "del":
            envs[op[1]].exports.pop(hx(op[2]), None)
            changed = True
        elif k == "default":
            spec = op[2]
            e = envs[op[1]]
            if spec["form"] == "new":
                e = Env(e.cwd, dict(e.exports), e.inter, dict(e.redirects))
                envs[spec["new"]] = e
                if e.inter:
                    proc = real(e.cwd)
            e.redirects[spec["fd"]] = sub(spec["to"]) if spec["to"] is not None else "/dev/null"
        elif k == "find":
            e = envs[op[1]]
            if op[2] is not None:
                e.exports[hx("PATH")] = hx(sub(op[2]))
                changed = True
            exp = None
            for d in bytes.fromhex(e.exports.get(hx("PATH"), hx("/bin:/usr/bin"))).decode("utf-8", "surrogateescape").split(":"):
                d = os.path.normpath(os.path.join(real(e.cwd), d))
                if d in [D + "/" + x for x in ("pa", "pb", "d2")]:
                    exp = os.path.basename(d) + "\n"
                    break
            j.eq(entry["found"], exp, "path", "op %d %s: what is run with PATH=%s in %s" % (i, op, bytes.fromhex(e.exports.get(hx("PATH"), "")), e.cwd))
            j.count("commands found" if exp else "commands not found")
        elif k == "chdir":
            proc = sub(op[1])
        elif k == "environ":
            environ[hx(op[1])] = hx(op[2])
        elif k == "run":
            compare(entry["dumps"], state(*case["built"][op[1]]), i, op, entry.get("failed"))
        elif k == "bg":
            snap[op[1]] = state(*case["built"][op[1]])
        elif k == "wait":
            compare(entry["dumps"], snap[op[1]], i, op, entry.get("failed"))
        j.eq(entry["cwds"], {n: e.cwd for n, e in envs.items()}, "cwd", "op %d %s: directories" % (i, op))
        j.eq(entry["pcwd"], proc, "process", "op %d %s: directory of the Python process" % (i, op))
        if entry["environ"] != environ:
            j.fail("process", "op %d %s: environment of the Python process: %s" % (i, op, J_short(
                [(k, entry["environ"].get(k), environ.get(k)) for k in set(environ) | set(entry["environ"]) if entry["environ"].get(k) != environ.get(k)])))
        if entry["exports"] is not None:
            for n, e in envs.items():
                if entry["exports"][n] != e.exports:
                    j.fail("variables", "op %d %s: variables of environment %s" % (i, op, n))
        if j.problems:
            return
    J.check_conserved(j, res)


def J_short(x):
    return repr(x)[:600]
