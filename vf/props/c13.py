"""C13: names in pysh code resolve and assign by the documented rules"""
import builtins

from .. import gen, judge as J

RULE = ("Random programs of 5-40 statements, run in 1-3 scopes sharing 1-3 environments, and pyshfunctions of modules, assigning (=, +=, :=, for, with, "
        "tuples, global, import), deleting and reading names - at the top, in functions, lambdas, classes, comprehensions - that are "
        "locals, environment variables, module globals, builtins and commands, several at once; every value read, all locals, and the "
        "variables of children are compared with a model of the scope rules; non-trivial if values were compared, distinct by program")
QUICK = {"cases": 600, "budget": 25}
THOROUGH = {"cases": 50000, "budget": 400}
REQUIRED = {"read: local": 400, "read: variable": 800, "read: module": 100, "read: builtin": 400, "read: command": 800, "assigned variables": 400,
            "assigned locals": 500, "variables of children": 300, "functions called": 300}

NAMES = ["aaa", "EX1", "EX2", "ex_3", "len", "max", "list", "vh", "alpha", "nosuch", "LANG", "copy", "abc"]
BUILTINS = [n for n in NAMES if hasattr(builtins, n)]
# abc and copy are modules of Python, and mean nothing here


class Scope(object):
    def __init__(self, env, parent=None):
        self.env = env
        self.locals = {}
        self.parent = parent


class M(object):
    """The rules"""

    def __init__(self, envs, base):
        self.envs = [dict(base, **e) for e in envs]

    def get(self, s, n):
        if n in s.locals:
            return "local", s.locals[n]
        if n == "_":
            return "command", ["cmd", [], [s.env]]
        if n == "exports":
            return "exports", ["exports", [s.env]]
        if n == "env":
            return "env", ["env", [s.env]]
        if n in self.envs[s.env]:
            return "variable", ["s", self.envs[s.env][n]]
        if s.parent is not None and n in s.parent:
            return "module", s.parent[n]
        if n in BUILTINS:
            return "builtin", ["builtin", n]
        return "command", ["cmd", [n], [s.env]]

    def set(self, s, n, v):
        if n == "_":
            n = "last_statement"
        if n in self.envs[s.env]:
            self.envs[s.env][n] = v
            return "variable"
        s.locals[n] = ["s", v]
        return "local"


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)
        self.k = 0

    def val(self):
        self.k += 1
        return self.rng.choice(["v%d" % self.k, "v%d" % self.k, "", "x y%d" % self.k, "\u20ac%d" % self.k])


def one(rng, tier):
    """Makes the program as a list of steps, each with source and what
    the model has to do for it"""
    g = G(rng)
    nenv = rng.choice([1, 1, 2, 3])
    envs = [{n: g.val() for n in rng.sample(NAMES, rng.choice([0, 2, 4]))} for i in range(nenv)]
    steps = []
    model = []      # for each step: list of model operations
    nscopes = rng.choice([1, 1, 2, 3])
    scopes = []
    for i in range(nscopes):
        steps.append(["scope", i, i % nenv])
        model.append([["scope", i, i % nenv]])
        scopes.append(i)
    mods = []
    if rng.random() < 0.7:
        steps.append(["module", 0])
        model.append([["module", 0]])
        mods.append(0)
        for n in rng.sample(NAMES, rng.choice([0, 2, 5])):
            v = g.val()
            steps.append(["mexec", 0, "%s = %s" % (n, ascii(v)), None])
            model.append([["mset", 0, n, v], ["end"]])
    fns = []

    def reads(indent=""):
        """(source, model ops) reading names somewhere"""
        ns = [rng.choice(NAMES + ["_", "exports", "env", "last_statement"]) for i in range(rng.choice([1, 2, 3]))]
        k = rng.random()
        if k < 0.4:
            src = ["rec_(%s)" % ", ".join("val_(%s)" % n for n in ns)]
        elif k < 0.55:
            src = ["def f_():", "    return [%s]" % ", ".join("val_(%s)" % n for n in ns), "rec_(*f_())"]
        elif k < 0.65:
            src = ["rec_(*(lambda: [%s])())" % ", ".join("val_(%s)" % n for n in ns)]
        elif k < 0.75:
            src = ["class K_:", "    got = [%s]" % ", ".join("val_(%s)" % n for n in ns), "rec_(*K_.got)"]
        elif k < 0.85:
            src = ["rec_(*[x_() for x_ in [%s]])" % ", ".join("lambda: val_(%s)" % n for n in ns)]
        elif k < 0.93:
            src = ["def f_():", "    def g_():", "        return [%s]" % ", ".join("val_(%s)" % n for n in ns), "    return g_()", "rec_(*f_())"]
        else:
            src = ["def f_():"] + ["    yield val_(%s)" % n for n in ns] + ["rec_(*f_())"]
        return src, [["read", ns]]

    def assign():
        n = rng.choice(NAMES + ["_", "last_statement"])
        v = g.val()
        k = rng.random()
        if k < 0.35:
            return ["%s = %s" % (n, ascii(v))], [["set", n, v]]
        if k < 0.45:
            return ["for %s in [%s, %s]: pass" % (n, ascii("x"), ascii(v))], [["set", n, "x"], ["set", n, v]]
        if k < 0.55:
            return ["with giving_(%s) as %s: pass" % (ascii(v), n)], [["set", n, v]]
        if k < 0.65:
            n2, v2 = rng.choice(NAMES), g.val()
            return ["%s, %s = %s, %s" % (n, n2, ascii(v), ascii(v2))], [["set", n, v], ["set", n2, v2]]
        if k < 0.72 and n != "_":
            return ["rec_((%s := %s))" % (n, ascii(v))], [["set", n, v], ["value", v]]
        if k < 0.9:
            f = ["def f_(%s):" % (rng.choice(["", "p_=1"])), "    global %s" % n, "    %s = %s" % (n, ascii(v))]
            ops = [["set", n, v]]
            if rng.random() < 0.5:
                f.append("    rec_(val_(%s))" % n)
                ops.append(["read", [n]])
            return f + ["f_()"], ops
        if k < 0.96:
            # Local to a function: nothing else
            return ["def f_():", "    %s = %s" % (n, ascii(v)), "    return %s" % n, "rec_(f_())"], [["value", v]]
        return ["class K_:", "    %s = %s" % (n, ascii(v)), "    got = %s" % n, "rec_(K_.got)"], [["value", v]]

    def other():
        n = rng.choice(NAMES)
        v = g.val()
        k = rng.random()
        if k < 0.4:
            return ["exports[%r] = %s" % (n, ascii(v))], [["export", n, v]]
        if k < 0.6:
            return ["exports.pop(%r, None)" % n], [["unexport", n]]
        if k < 0.7:
            e = rng.randrange(nenv)
            return ["env = ENVS_[%d]" % e], [["env", e]]
        if k < 0.8:
            return ["if type(%s) is STR_:" % n, "    %s += %s" % (n, ascii(v))], [["aug", n, v]]
        if k < 0.9:
            return ["try:", "    del %s" % n, "except NameError:", "    rec_('name error')",
"except KeyError:", "    rec_('name error')"], [["del", n]]
        if k < 0.95:
            return ["import abc as imported"], [["import", "imported"]]
        if nscopes > 1:
            # What it does to an environment in several scopes is not said anywhere
            return reads()
        e = rng.randrange(nenv)
        s1, o1 = rng.choice([reads, assign])()
        return ["with env.temporary_env(ENVS_[%d]):" % e] + ["    " + x for x in s1], [["push", e]] + o1 + [["pop"]]

    def function(m):
        """A pyshfunction of module m"""
        name = "pf%d_" % len(fns)
        e = rng.randrange(nenv)
        d = [g.val() for i in range(4)]
        body, ops = [], []
        for i in range(rng.choice([0, 1, 2, 3])):
            s1, o1 = rng.choice([reads, reads, assign])()
            if any(x.lstrip().startswith(("class", "def", "import")) for x in s1):
                # Names would be local to the function
                s1, o1 = reads()
                while not s1[0].startswith("rec_"):
                    s1, o1 = reads()
            else:
                gl = sorted({o[1] for o in o1 if o[0] == "set"})
                if gl:
                    s1 = ["globals_ = 0"] + s1
                    body.insert(0, "global " + ", ".join(gl))
            body += s1
            ops += o1
        gl = sorted({n for x in body if x.startswith("global ") for n in x[7:].split(", ")})
        body = [x for x in body if not x.startswith("global ")]
        if gl:
            body.insert(0, "global " + ", ".join(gl))
        kind = rng.choice(["return", "return", "yield", "async"])
        src = ["def mk_(cl_):",
               "    %sdef %s(a_, b_=%s, *args_, k_=%s, **kw_):" % ("async " if kind == "async" else "", name, ascii(d[0]), ascii(d[1]))]
        src += ["        " + x for x in body]
        src += ["        nonlocal cl_", "        cl_ += '.'"] if rng.random() < 0.3 else []
        nl = src[-1] == "        cl_ += '.'"
        # nonlocal has to come first
        if nl:
            src = src[:2] + ["        nonlocal cl_"] + [x for x in src[2:] if x != "        nonlocal cl_"]
        src += ["        %s [a_, b_, [*args_], k_, sorted(kw_.items()), cl_]" % ("yield" if kind == "yield" else "return")]
        # What it encloses is shared with the function around it
        later = ["    cl_ += '!'"] if rng.random() < 0.3 else []
        if rng.random() < 0.5:
            src += ["    r_ = ENVS_[%d].pyshfunction(%s)" % (e, name)] + later + ["    return r_"]
        else:
            src[1:1] = ["    @ENVS_[%d].pyshfunction" % e]
            src += later + ["    return " + name]
        src += ["%s = mk_(%s)" % (name, ascii(d[2]))]
        fns.append([name, m, e, kind, d, ops, nl, [d[2] + ("!" if later else "")]])
        return src, [["fn", name, m, e]]

    def call(f):
        name, m, e, kind, d, ops, nl, cl = f
        a = g.val()
        b = rng.choice([None, g.val()])
        extra = [g.val() for i in range(rng.choice([0, 0, 2]))] if b is not None else []
        k = rng.choice([None, g.val()])
        kw = {n: g.val() for n in rng.sample(["z", "y_y"], rng.choice([0, 0, 1, 2]))}
        args = [ascii(a)] + ([ascii(b)] if b is not None else []) + [ascii(x) for x in extra]
        args += ["k_=%s" % ascii(k)] if k is not None else []
        args += ["%s=%s" % (n, ascii(v)) for n, v in kw.items()]
        c = "%s(%s)" % (name, ", ".join(args))
        if kind == "yield":
            c = "[*%s][0]" % c
        elif kind == "async":
            c = "run_(%s)" % c
        if nl:
            cl[0] += "."
        res = [a, b if b is not None else d[0], extra, k if k is not None else d[1], [list(x) for x in sorted(kw.items())], cl[0]]
        return (["def run_(c_):", "    try:", "        c_.send(None)", "    except StopIteration as e_:", "        return e_.value"] if kind == "async" else []) + [
            "rec_(%s)" % c], [["infn", name]] + ops + [["outfn"], ["value", res]]

    for i in range(rng.choice([5, 10, 20, 40])):
        k = rng.random()
        s = rng.choice(scopes)
        if k < 0.3:
            src, ops = reads()
        elif k < 0.55:
            src, ops = assign()
        elif k < 0.7:
            src, ops = other()
        elif k < 0.75:
            e = rng.randrange(nenv)
            steps.append(["child", e])
            model.append([["child", e]])
            continue
        elif mods and k < (0.85 if len(fns) < 2 else 0.79):
            src, ops = function(0)
            steps.append(["mexec", 0, "\n".join(src), None])
            model.append(ops + [["end"]])
            continue
        elif fns and k < 0.97:
            f = rng.choice(fns)
            src, ops = call(f)
            steps.append(["mexec", f[1], "\n".join(src), None])
            model.append(ops + [["end"]])
            continue
        elif mods:
            n, v = rng.choice(NAMES), g.val()
            steps.append(["mexec", 0, "%s = %s" % (n, ascii(v)), None])
            model.append([["mset", 0, n, v], ["end"]])
            continue
        else:
            steps.append(["locals", s])
            model.append([["locals", s]])
            continue
        way = "exec"
        if rng.random() < 0.2:
            way = "file"
        elif rng.random() < 0.1 and len(src) == 1:
            way = "expr"
        steps.append(["exec", s, "\n".join(src), way])
        model.append([["in", s]] + ops + [["end"]])
    for s in scopes:
        steps.append(["locals", s])
        model.append([["locals", s]])
    for e in range(nenv):
        steps.append(["child", e])
        model.append([["child", e]])
    return {"scn": "scopes", "p": {"envs": envs, "steps": steps}, "model": model, "cfg": {}}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    m = M(p["envs"], obs["environ"])
    scopes = {}
    mods = {}
    fns = {}
    log = iter(obs["log"])
    cur = None
    stack = []

    def expect(want, what):
        got = next(log, None)
        return j.eq(got, want, "value", what)
    for st, ops in zip(p["steps"], case["model"]):
        what = "%s" % (st[2] if len(st) > 2 else st,)
        for op in ops:
            k = op[0]
            if k == "scope":
                scopes[op[1]] = Scope(op[2])
            elif k == "module":
                mods[op[1]] = {}
            elif k == "mset":
                mods[op[1]][op[2]] = ["s", op[3]]
            elif k == "in":
                cur = scopes[op[1]]
            elif k == "fn":
                fns[op[1]] = Scope(op[3], mods[op[2]])
            elif k == "infn":
                stack.append(cur)
                cur = fns[op[1]]
                j.count("functions called")
            elif k == "outfn":
                cur = stack.pop()
            elif k == "read":
                want = []
                for n in op[1]:
                    kind, v = m.get(cur, n)
                    j.count("read: " + kind)
                    want.append(v)
                expect(want, "values of %s in %r" % (op[1], what))
            elif k == "set":
                j.count("assigned %ss" % m.set(cur, op[1], op[2]))
            elif k == "value":
                expect([op[1]], "value in %r" % what)
            elif k == "export":
                m.envs[cur.env][op[1]] = op[2]
            elif k == "unexport":
                m.envs[cur.env].pop(op[1], None)
            elif k == "env":
                cur.env = op[1]
            elif k == "push":
                stack.append(cur.env)
                cur.env = op[1]
            elif k == "pop":
                cur.env = stack.pop()
            elif k == "aug":
                kind, v = m.get(cur, op[1])
                if v[0] == "s":
                    m.set(cur, op[1], v[1] + op[2])
            elif k == "del":
                if op[1] in cur.locals:
                    del cur.locals[op[1]]
                else:
                    expect(["name error"], "del in %r" % what)
            elif k == "import":
                cur.locals[op[1]] = ["other", None]
            elif k == "locals":
                s = scopes[op[1]]
                got = next(log, None)
                if not j.check(got and isinstance(got[0], dict), "locals", "no locals"):
                    return
                got = {n: v for n, v in got[0].items() if n != "env"}
                j.eq(got, s.locals, "locals", "locals of scope %d" % op[1])
            elif k == "child":
                got = next(log, None)
                if not j.check(got and isinstance(got[0], dict), "child", "no variables"):
                    return
                want = m.envs[op[1]]
                diff = {n: (got[0].get(n), want.get(n)) for n in set(got[0]) | set(want) if got[0].get(n) != want.get(n)}
                j.check(not diff, "child", lambda: "variables of a child of environment %d differ: name: (got, expected): %s" % (op[1], diff))
                j.count("variables of children")
            elif k == "end":
                if not expect(["end"], "end of %r" % what):
                    return
            if j.problems:
                return
    j.nontrivial()
    J.check_conserved(j, res)
