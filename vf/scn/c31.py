"""What is said of commands and other parts of pipelines when asked, e.g. by help()"""
import inspect
import os
import pydoc

import pieshell
from pieshell import environ
from .. import monitors

PROGRAM = """#!/bin/sh
printf '%%s\\0' "$PWD" "${VF_X-unset}" "$@" >> %(log)s
printf '\\n' >> %(log)s
for a; do :; done
echo error text >&2
if [ "$a" = --help ]; then exec /bin/cat %(text)s; fi
echo ran
"""


def types(annotation):
    """The parts of a union: what is accepted"""
    res = []
    for t in getattr(annotation, "__args__", [annotation]):
        if isinstance(t, type) and t.__module__ == "builtins" and hasattr(t, "__members__"):
            res.append(["one of", sorted(m.value for m in t)])
        else:
            res.append(getattr(t, "__name__", repr(t)))
    return sorted(res, key=str)


def ask(ctx, programs, asks, interactive, alive):
    loop = ctx.loop()
    log = ctx.path("log")
    bin = ctx.path("bin")
    top = ctx.path("dir")
    os.mkdir(bin)
    os.mkdir(top)
    for name, text in programs.items():
        p = os.path.join(bin, name)
        t = os.path.join(ctx.dir, os.path.basename(ctx.save(bytes.fromhex(text))))
        with open(p, "w") as f:
            f.write(PROGRAM % {"log": log, "text": t})
        os.chmod(p, 0o755)
    env = ctx.env(cwd=top, interactive=False)
    env._interactive = interactive
    env._exports["PATH"] = bin + ":" + env._exports["PATH"]
    env._exports["VF_X"] = "exported"
    obs = []

    def pipeline(node):
        k = node[0]
        if k == "c":
            c = getattr(env, node[1])
            for a in node[2]:
                c = getattr(c, a[1]) if a[0] == "attr" else c(environ.R(a[1])) if a[0] == "R" else c(**{a[1]: a[2]}) if a[0] == "kw" else c(a[1])
            return c
        if k == "|":
            return pipeline(node[1]) | pipeline(node[2])
        if k == "+":
            return pipeline(node[1]) + pipeline(node[2])
        if k == "fn":
            return ["a", "b"] | pipeline(node[1])
        if k == "builtin":
            return getattr(env, node[1])
        if k == "r":
            return pipeline(node[1]) | os.path.join(top, "out")

    with ctx.stdio(True, b""):
        if alive:
            rp = (env.vh("wait:" + ctx.path("go"))).run()
        for what, node in asks:
            with open(log, "wb"):
                pass
            o = {}
            obs.append(o)
            n = len(monitors.M.forked)
            before = (os.getcwd(), env._cwd, dict(env._exports), list(env.running_pipelines), sorted(os.listdir(top)), getattr(env, "last_pipeline", None))
            p = pipeline(node)
            arg = repr(p._arg) if node[0] in ("c", "builtin") else None
            try:
                if what == "doc":
                    o["doc"] = p.__doc__
                elif what == "getdoc":
                    o["doc"] = inspect.getdoc(p)
                elif what == "signature":
                    sig = inspect.signature(p) if node[0] == "c" else p.__signature__
                    o["signature"] = None if sig is None else [[x.name, str(x.kind), x.default is inspect.Parameter.empty, x.default is False, types(x.annotation)]
                                                                 for x in sig.parameters.values()]
                    if sig is not None:
                        o["returns"] = sig.return_annotation is pieshell.pipeline.base.Pipeline
                        o["shown"] = str(sig)
                elif what == "help":
                    o["help"] = pydoc.plain(pydoc.render_doc(p))
                elif what == "repr":
                    o["repr"] = len(repr(p))
                elif what == "name":
                    o["name"] = len(p.__name__)
                elif what == "misc":
                    o["misc"] = [p.__bases__ == [], callable(p), isinstance(p, pieshell.pipeline.base.Pipeline), hasattr(p, "__pt_repr__"), p.__module__ is None]
            except Exception as e:
                o["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
            o["forked"] = len(monitors.M.forked) - n
            after = (os.getcwd(), env._cwd, dict(env._exports), list(env.running_pipelines), sorted(os.listdir(top)), getattr(env, "last_pipeline", None))
            o["same"] = [a == b for a, b in zip(before[:5], after[:5])] + [before[5] is after[5] or o["forked"] > 0]
            if arg is not None:
                o["arg"] = repr(p._arg) == arg
            o["started"] = p._started
            with open(log, "rb") as f:
                o["log"] = [[x.decode() for x in line.split(b"\0")[:-1]] for line in f.read().split(b"\n")[:-1]]
            o["top"] = top
        if alive:
            with open(ctx.path("go"), "w"):
                pass
            loop.run_until_complete(rp.wait())
    return {"asked": obs}
