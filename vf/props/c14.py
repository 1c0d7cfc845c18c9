"""C14: bashsource imports exactly the environment a bash script leaves"""
import os
import subprocess

from .. import core, gen, judge as J

RULE = ("Random bash scripts, 0-4 files, exporting, not exporting, unsetting and redefining variables in 20 ways, with any characters in values, "
        "with functions, here documents and output full of what looks like declarations, sourced one after the other and at the same time in "
        "environments of two kinds; all variables of all environments are compared with what env -0 says in a bash started and told the same "
        "by the judge; non-trivial if a script was sourced, distinct by scripts")
QUICK = {"cases": 300, "budget": 22}
THOROUGH = {"cases": 30000, "budget": 400}
REQUIRED = {"variables compared": 5000, "variables set by scripts": 1500, "values with special characters": 500, "failed scripts": 20,
            "environments not sourced in": 100, "scripts": 300}
ASSUMPTIONS = ["Bash itself is trusted to say what it exports. Exported functions, and the variable _, are not compared."]

NAMES = ["V1", "V2", "v_3", "_V4", "VFIVE", "LANG", "PATH_X", "declare", "a", "X_Y", "EDITOR", "OLD1", "OLD2", "OLD3"]
ODD = ["'", '"', "$", "`", "\\", "\n", "\t", "\r", " ", "!", "#", "=", "(", ")", ";", "&", "|", "<", ">", "*", "?", "[", "{", "}", "~", "%", "%s",
       "\x01", "\x1b", "\x7f", "\u00e5", "\u20ac", "\u3042", "\U0001f600", "\u0085", "\u2028", "\u00a0", "\\n", "\\\"", "$HOME", "$(x)", "\x0b", "\x0c", "\x08", "\x07", "^", ":",
       "declare -x FAKE=\"1\"\n", "\ndeclare -x FAKE=\"2\"", "\"\ndeclare -x FAKE=\"3", "f ()\n{ \n    x\n}\n", "$'", "\\'", "''", "\\\n", "\udc80", "\udcff\udce5"]
LOOKS = ["declare -x FAKE=\"5\"", "declare -ax FAKE=([0]=\"1\")", "export FAKE=6", "FAKE=7", "x () { declare -x FAKE=\"8\"; }", "nf ()", "{ ", "}",
         "declare -fx fake", "declare -x FAKE", "fake () ", "\"", "'", "$'"]


def value(rng):
    k = rng.random()
    if k < 0.1:
        return ""
    if k < 0.3:
        return "".join(rng.choice("abcXYZ019") for i in range(rng.randrange(1, 12)))
    if k < 0.95:
        return "".join(rng.choice(ODD) if rng.random() < 0.5 else rng.choice("abc019") for i in range(rng.randrange(1, 12)))
    if k < 0.98:
        return rng.choice(ODD) * rng.choice([100, 1000])
    return "".join(rng.choice(["a", "b", "\n", "\"", "\u20ac"]) for i in range(rng.choice([4095, 4096, 9000, 30000])))


def sq(v):
    return "'%s'" % v.replace("'", "'\\''")


def dq(v):
    return '"%s"' % "".join("\\" + c if c in '$`"\\' else c for c in v)


def ansi(v):
    res = []
    for b in v.encode("utf-8", "surrogateescape"):
        res.append("\\x%02x" % b if b < 32 or b > 126 or b in b"'\\" else chr(b))
    # A hexadecimal digit after \x41 would be taken for a part of it, if not two are there
    return "$'%s'" % "".join(res)


def quote(rng, v):
    return rng.choice([sq, sq, dq, ansi])(v)


def statement(rng):
    n = rng.choice(NAMES)
    v = value(rng)
    q = quote(rng, v)
    k = rng.randrange(31)
    if k < 7:
        return "export %s=%s" % (n, q)
    if k == 7:
        return "%s=%s" % (n, q)
    if k == 8:
        return "%s=%s; export %s" % (n, q, n)
    if k == 9:
        return "export %s %s=%s" % (rng.choice(NAMES), n, q)
    if k == 10:
        return "declare -x %s=%s" % (n, q)
    if k == 11:
        return "typeset -x %s=%s" % (n, q)
    if k == 12:
        return "unset %s" % n
    if k == 13:
        return "export -n %s" % n
    if k == 14:
        return "set -a; %s=%s; set +a" % (n, q)
    if k == 15:
        return "declare -rx RO%d=%s" % (rng.randrange(1000000), q)
    if k == 16:
        return "declare -ix INT=%d+%d" % (rng.randrange(10), rng.randrange(1000))
    if k == 17:
        return "declare -%sx UL=%s" % (rng.choice("ul"), q)
    if k == 18:
        return "export %s=\"$%s\"%s" % (n, rng.choice(NAMES), q)
    if k == 19:
        return "export %s=$(printf '%%s' %s)" % (n, q)
    if k == 20:
        return "declare -ax AR%d; AR%d=(%s %s)" % (rng.randrange(2), 0, q, quote(rng, value(rng)))
    if k == 21:
        return "declare -Ax AS; AS[%s]=%s" % (rng.choice(["a", "'x y'", "']\"'"]), q)
    if k == 22:
        body = "\n".join("    %s" % rng.choice(["echo %s" % sq(v.encode("utf-8", "ignore").decode("utf-8")), "declare -x FAKE=\"9\"", "export FAKE=10", "if true; then echo x; fi",
                                                "local y=1", "cat <<HERE\n%s\nHERE" % "\n".join(rng.sample(LOOKS, 3)).replace("$", "")]) for i in range(rng.randrange(1, 4)))
        fn = rng.choice(["fn1", "fn_2", "my-fn", "f.g", "declare_x"])
        return "%s () {\n%s\n}%s" % (fn, body, rng.choice(["", "\nexport -f %s" % fn]))
    if k == 23:
        return "echo %s" % sq(rng.choice(LOOKS))
    if k == 24:
        return "cat <<'HERE'\n%s\nHERE" % "\n".join(rng.sample(LOOKS, 4))
    if k == 25:
        return "for i in 1 2 3; do export L$i=%s$i; done" % q
    if k == 26:
        return "if [ -n \"$%s\" ]; then export SEEN_%s=%s; fi" % (n, n, q)
    if k == 27:
        return "export UNVALUED_%d" % rng.randrange(3)
    if k == 28:
        return rng.choice(["set -u", "set -C", "shopt -s extglob", "IFS=,", "IFS=/", "IFS=", "set -f", "umask 077", "LC_ALL=C", "echo err >&2", "false", "source nosuchfile",
                           "read line; export READ=\"$line\"", "trap 'echo bye' EXIT", "alias ll='ls'", "set -- a b", "cd /", "set -o posix", "unset LC_ALL", "ls | true"])
    if k == 29:
        return "export %s+=%s" % (n, q)
    return rng.choice(["# comment 'unbalanced", "", ":", "(export %s=%s)" % (n, q), "%s=%s true" % (n, q), "g () { local -x %s=%s; }; g" % (n, q)])


def script(rng):
    s = [statement(rng) for i in range(rng.choice([0, 1, 3, 8, 20]))]
    k = rng.random()
    if k < 0.12:
        s.insert(rng.randrange(len(s) + 1), rng.choice(["exit 3", "exit 1", "set -e; false", "kill -9 $$", "exit 255", ": ${nosuch?}; exit 7"]))
    return "\n".join(s) + rng.choice(["", "\n"])


def one(rng, tier):
    files = {}
    enc = lambda s: s.encode("utf-8", "surrogateescape").hex()
    fnames = rng.sample(["a.sh", "b.sh", "c d.sh", "it's.sh", "sub/e.sh", "$x.sh", "q\"q.sh", "\u20ac.sh", "-x.sh"], rng.choice([1, 1, 2, 3]))
    for f in fnames:
        files[f] = enc(script(rng))
    if rng.random() < 0.3:
        files[rng.choice([".bash_profile", ".profile", ".bash_login"])] = enc(script(rng))
    envs = []
    for i in range(2):
        envs.append({"how": "own" if i == 0 else rng.choice(["own", "process"]),
                     "vars": {enc(n): enc(value(rng)) for n in ["OLD1", "OLD2", "OLD3"] + rng.sample(NAMES[:6], rng.choice([0, 1, 3]))}})

    def call():
        args = []
        for i in range(rng.choice([0, 1, 1, 1, 2, 3])):
            f = rng.choice(fnames)
            # Without a / source looks in PATH first
            f = rng.choice(["./", "@D/"]) + f
            args.append(rng.choice([f, {"R": f}]))
        return {"env": rng.randrange(2), "args": args, "mode": rng.choice(["+", "bytes", "await"]),
                "how": rng.choice(["", "", "", "", "out", "group", "file"])}
    calls = []
    for i in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.15:
            a, b = call(), call()
            a["env"], b["env"] = 0, 1
            if "file" in (a["how"], b["how"]):
                a["how"] = ""
            calls.append([a, b])
        else:
            calls.append([call()])
    return {"scn": "sources", "p": {"files": files, "envs": envs, "calls": calls}, "delays": gen.Gen(rng).delays(), "cfg": gen.Gen(rng).cfg(0.15)}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


def reference(j, dir, before, args):
    """What bash says: (exit status, variables, what it wrote)"""
    f = os.path.join(dir, "reference")
    if os.path.exists(f):
        os.unlink(f)
    import shlex
    script = "; ".join(["source " + shlex.quote((a["R"] if isinstance(a, dict) else a).replace("@D", dir)) for a in args]
                       + ["/usr/bin/env -0 > \"$0\""])
    kw = {"user": core.UID, "group": core.UID, "extra_groups": []} if j.run.uid else {}
    r = subprocess.run(["/bin/bash", "-l", "-i", "-c", script, f], cwd=dir, env={k: v for k, v in before.items()},
                       input=b"from standard in\nmore\n", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, umask=0o022, start_new_session=True, **kw)
    vars = None
    if os.path.exists(f):
        with open(f, "rb") as o:
            vars = dict(x.split(b"=", 1) for x in o.read().split(b"\0")[:-1])
        vars.pop(b"_", None)
        vars = {k: v for k, v in vars.items() if not k.startswith(b"BASH_FUNC_")}
    return r.returncode, vars, r.stdout


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    log = obs["log"]
    unhex = lambda d: {bytes.fromhex(k): bytes.fromhex(v) for k, v in d.items()}
    now = [unhex(d) for d in log[0]["envs"]]
    for group, entry in zip(p["calls"], log[1:]):
        got = [unhex(d) for d in entry["envs"]]
        touched = set()
        for c, exc in zip(group, entry["exc"]):
            i = c["env"]
            touched.add(i)
            code, vars, out = reference(j, obs["dir"], now[i], c["args"])
            what = "%s in environment %d" % (c["args"], i)
            j.count("scripts", len(c["args"]))
            want = dict(now[i])
            if code:
                j.count("failed scripts")
                if j.check(exc and exc["type"] == "PipelineFailed", "failure", lambda: "%s: bash exits with %s, but got %s" % (what, code, exc)):
                    codes = [x.get("code") for x in exc["pipeline"]["parts"] if x["infailed"]]
                    j.check(abs(code) in codes, "failure", lambda: "%s: bash exits with %s, exit codes are %s" % (what, code, codes))
            else:
                j.check(not exc, "failure", lambda: "%s: raised %s" % (what, exc))
            if vars is not None:
                want.update(vars)
                j.count("variables set by scripts", sum(1 for k, v in vars.items() if now[i].get(k) != v))
                j.count("values with special characters", sum(1 for k, v in vars.items() if now[i].get(k) != v and not v.isalnum()))
                j.nontrivial()
            g = dict(got[i])
            for d in (g, want):
                d.pop(b"_", None)
            if not vars or vars.get(b"SHLVL") == now[i].get(b"SHLVL"):
                pass
            diff = {n: (g.get(n), want.get(n)) for n in set(g) | set(want) if g.get(n) != want.get(n)}
            j.count("variables compared", len(want))
            if not j.check(not diff, "variables", lambda: "%s: name: (got, expected): %s" % (what, core.short(diff, 1200))):
                return
            if "out" in entry and not code:
                w = {"group": out + b"grouped\n", "file": b"", }.get(c["how"], out)
                g2 = bytes.fromhex(entry["out"])
                j.check(sorted(g2.split(b"\n")) == sorted(w.split(b"\n")), "output", lambda: "%s: wrote %r, expected %r" % (what, g2[-500:], w[-500:]))
        for i in range(len(now)):
            if i not in touched:
                j.count("environments not sourced in")
                j.check(got[i] == now[i], "isolation", lambda: "environment %d was changed by sourcing in another one: %s" % (
                    i, {k for k in set(got[i]) | set(now[i]) if got[i].get(k) != now[i].get(k)}))
        j.check(all(d == obs["dir"] for d in entry["cwds"]), "cwd", "directories changed: %s" % entry["cwds"])
        now = got
    if j.problems:
        return
    child = {bytes.fromhex(x).split(b"=", 1)[0]: bytes.fromhex(x).split(b"=", 1)[1] for x in log[-1]["child"]}
    j.eq(child, now[0], "child", "variables of a child")
    J.check_conserved(j, res)
