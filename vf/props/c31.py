"""C31: help on commands is theirs"""
from .. import gen, judge as J

RULE = ("Programs with generated help texts (0-25 options, alone or with values, optional values, numbers, enumerations, several times, in lists and sentences, with "
        "digits, dashes and names that are Python's; between other text of all kinds) are asked about with help(), inspect.signature(), inspect.getdoc(), __doc__, repr() "
        "and __name__, with and without arguments of their own; pipelines, groups, redirected and Python ones and builtins are asked for the same without help(); in environments which are interactive "
        "and not, beside running pipelines; what is said is compared with the text, and what was run for it, with which arguments and where, with --help of the program only; "
        "non-trivial if something was asked that has options, distinct by texts and questions")
QUICK = {"cases": 500, "budget": 40, "batch": 10}
THOROUGH = {"cases": 30000, "budget": 400, "batch": 10}
REQUIRED = {"signatures": 150, "options": 1500, "texts": 120, "shown by help()": 30, "asked of builtins": 40, "options with digits": 60, "empty texts": 5, "asked of pipelines": 60}
ASSUMPTIONS = ["Options are words which start with two dashes and a letter, and have letters, digits and dashes in them", "Help is UTF-8, written to standard out, and asking for it succeeds"]

WORDS = ["file", "the", "use", "FILE...", "-", "x-y", "a--b", "[--skip]", "(--other)", "größe", "–-dash", "1.", "%(x)s", "%s", "$HOME", "~", "*", "'q'", "\"", "\\n", "<b>", "=", "--", "---", "-v", "-ab"]
NAMES = ["all", "almost-all", "author", "block-size", "color", "utf8", "base64", "inet4-only", "from", "import", "class", "lambda", "none", "self", "format", "ab", "x2", "no-dereference",
         "Quoting", "type", "args", "kw", "str", "int", "bool", "help", "version", "sort-by", "level-3-up", "time-style", "in", "is", "not-", "a1b2"]
VALUES = ["FILE", "WHEN", "auto|always", "1,2", "N", "key=value", "a-b", "A/B", "'x'", "STYLE+X", "ÜBER", "none", "mro", "value", "name", "_X_", "__Y", "{a}", "100%", "%(x)s"]
BUILTINS = ["cd", "bg", "fg", "clear_dir_cache", "bashsource"]


def option(r):
    """The text, its name and what can be given"""
    name = r.choice(NAMES).rstrip("-")
    k = r.choice(["flag", "flag", "value", "value", "optional", "number", "any", "dots", "stop"])
    v = r.choice(VALUES)
    if k == "flag":
        return "--" + name + r.choice(["", "", "", ",", ")", ":", ";"]), name, ["bool"]
    if k == "value":
        return "--%s=%s" % (name, v), name, [["one of", v]]
    if k == "stop":
        return "--%s=%s." % (name, v), name, [["one of", v]]
    if k == "optional":
        return "--%s[=%s]" % (name, v), name, ["bool", ["one of", v]]
    if k == "number":
        return "--%s=<number>" % name, name, ["int"]
    if k == "any":
        return r.choice(["--%s=<file>", "--%s=<n>,<m>", "--%s=<a|b>"]) % name, name, ["str"]
    return "--%s=..." % name, name, ["bool"]


def text(r):
    lines = []
    want = {}
    for i in range(r.choice([0, 1, 3, 6, 12, 25])):
        k = r.random()
        if k < 0.2:
            lines.append(" ".join(r.choice(WORDS) for j in range(r.choice([0, 1, 4, 9]))))
            continue
        words = [" " * r.choice([1, 2, 6]) if r.random() < 0.9 else "\t"]
        if r.random() < 0.3:
            words.append("-%s," % r.choice("abxyz"))
        for j in range(r.choice([1, 1, 1, 2])):
            t, name, types = option(r)
            words.append(t)
            want.setdefault(name, [])
            want[name] += types
        words += [r.choice(WORDS) for j in range(r.choice([0, 0, 2, 5]))]
        lines.append(" ".join(words))
    t = "\n".join(lines)
    if lines and r.random() < 0.8:
        t += "\n"
    return t, want


def one(rng, tier):
    r = rng
    programs, wants, texts = {}, {}, {}
    for i in range(r.choice([1, 2, 3])):
        name = "vfp%d" % i
        t, w = text(r)
        if r.random() < 0.05:
            t += "\n" + "x" * 5000 + "\n" + "line\n" * 30000
        texts[name], wants[name] = t, w
        programs[name] = t.encode().hex()

    def command():
        args = []
        for i in range(r.choice([0, 0, 0, 1, 2])):
            args.append(r.choice([["attr", "sub"], ["R", r.choice(["%(x)s", "*", "~", "a b", "é"])], ["kw", "opt_x", r.choice(["1", "y z"])], ["kw", "flag", True], ["str", "-n"]]))
        return ["c", r.choice(sorted(programs)), args]

    asks = []
    for i in range(r.choice([1, 2, 4, 6])):
        k = r.random()
        if k < 0.62:
            asks.append([r.choice(["doc", "getdoc", "signature", "signature", "signature", "help"]) if r.random() < 0.9 else r.choice(["repr", "name", "misc"]), command()])
        elif k < 0.8:
            node = r.choice([["|", command(), command()], ["+", command(), command()], ["fn", command()], ["r", command()]])
            asks.append([r.choice(["doc", "getdoc", "signature", "repr", "name", "misc"]), node])
        else:
            asks.append([r.choice(["doc", "getdoc", "signature", "repr", "name", "misc"]), ["builtin", r.choice(BUILTINS)]])
    return {"scn": "ask", "p": {"programs": programs, "asks": asks, "interactive": r.random() < 0.4, "alive": r.random() < 0.3}, "texts": texts, "wants": wants,
            "cfg": gen.Gen(rng).cfg(0.3)}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def argv(args):
    res = []
    for a in args:
        res.append(a[1] if a[0] != "kw" else "--" + a[1].replace("_", "-") + ("" if a[2] is True else "=" + a[2]))
    return res


def types_wanted(types):
    res = []
    values = []
    for t in types:
        if isinstance(t, list):
            values.append(t[1])
        elif t not in res:
            res.append(t)
    if any(v.startswith("_") and v.endswith("_") for v in values):
        return None # Can not be names
    if values:
        up = {}
        for v in sorted(set(values)):
            up.setdefault(v.upper(), v)
        res.append(["one of", sorted(up)])
    return sorted(res, key=str)


def judge(case, res, j, workdir):
    p = case["p"]
    J.observed(j, res)
    for (what, node), o in zip(p["asks"], res["obs"]["asked"]):
        at = "%s of %s: " % (what, node)
        j.check("exc" not in o, "raised", at + str(o.get("exc")))
        if "exc" in o:
            continue
        j.check(all(o["same"]), "changed", at + "directory, variables, jobs or files of the shell changed: %s" % o["same"])
        j.check(o.get("arg", True) and not o["started"], "changed", at + "the command changed")
        asked = what in ("doc", "getdoc", "signature", "help") and node[0] == "c"
        runs = o["log"]
        if asked:
            j.check(runs, "ran", at + "the program was not asked")
            for run in runs:
                want = [o["top"], "exported"] + argv(node[2])
                j.check(run[:len(want)] == want and run[-1] == "--help" and (what == "help" or len(run) == len(want) + 1), "ran",
                        lambda: at + "was run as %s, expected %s with --help" % (run, want))
            if what in ("doc", "signature"):
                j.eq(len(runs), 1, "ran", at + "times asked")
        else:
            j.eq(runs, [], "ran", at + "programs run")
            j.eq(o["forked"], 0, "ran", at + "processes started")
        if node[0] == "c":
            text = case["texts"][node[1]]
            want = case["wants"][node[1]]
            lines = text.split("\n")
            if lines[-1] == "":
                lines.pop()
            if not text.strip():
                j.count("empty texts")
            elif what == "doc":
                j.eq(o["doc"], "\n".join(lines), "text", at + "text")
                j.count("texts")
            elif what == "getdoc":
                j.eq([" ".join(l.split()) for l in o["doc"].split("\n") if l.strip()], [" ".join(l.split()) for l in lines if l.strip()], "text", at + "lines")
                j.count("texts")
            elif what == "help":
                shown = {" ".join(l.lstrip(" |").split()) for l in o["help"].split("\n")}
                missing = [l for l in lines if l.strip(" |\t") and " ".join(l.lstrip(" |\t").split()) not in shown]
                j.check(not missing, "text", lambda: at + "not shown: %s of %s" % (missing[:3], o["help"][:600]))
                j.check(node[1] in o["help"].split("\n")[0], "text", at + "the title is " + o["help"].split("\n")[0])
                j.count("shown by help()")
            if what == "signature":
                j.count("signatures")
                j.count("options", len(want))
                j.check(o["returns"], "signature", at + "what is returned is no pipeline")
                j.eq([x[0] for x in o["signature"]], [n.replace("-", "_") for n in want], "signature", at + "names of parameters")
                for name, kind, nodefault, false, types in o["signature"]:
                    w = want.get(name.replace("_", "-"))
                    if w is None:
                        continue
                    j.eq(kind, "KEYWORD_ONLY", "signature", at + "kind of " + name)
                    j.eq([not nodefault, false], ["bool" in w] * 2, "signature", at + "%s can be left out" % name)
                    w = types_wanted(w)
                    if w is not None:
                        got = sorted([["one of", sorted(x.upper() for x in t[1])] if isinstance(t, list) else t for t in types], key=str)
                        j.eq(got, w, "signature", at + "what %s takes" % name)
                if want:
                    j.nontrivial()
                if any(c.isdigit() for n in want for c in n):
                    j.count("options with digits")
        elif node[0] == "builtin":
            j.count("asked of builtins")
        else:
            if what == "signature":
                j.eq(o["signature"], None, "signature", at + "signature")
            j.count("asked of pipelines")
    J.check_conserved(j, res)
