"""Code run in scopes of environments"""
import builtins
import contextlib
import json
import os

import pieshell
from .. import monitors


def scopes(ctx, envs, steps):
    loop = ctx.loop()
    es = []
    for x in envs:
        ex = dict(os.environ)
        ex.update(x)
        es.append(pieshell.env(cwd=ctx.dir, exports=ex))
    log = []
    fns = {}
    bnames = {id(getattr(builtins, n)): n for n in dir(builtins)}

    def val(v):
        if isinstance(v, str):
            return ["s", v]
        if isinstance(v, pieshell.Environment):
            return ["env", [i for i, e in enumerate(es) if e is v]]
        if isinstance(v, pieshell.Pipeline):
            return ["cmd", list(v._arg), [i for i, e in enumerate(es) if e is v._env]]
        if isinstance(v, dict):
            return ["exports", [i for i, e in enumerate(es) if e._exports is v]]
        if id(v) in bnames and not isinstance(v, (int, bool)):
            return ["builtin", bnames[id(v)]]
        return ["other", None]

    def rec(*a):
        monitors.returned_in_child("scope")
        log.append(list(a))

    def run(source, name, scope):
        try:
            exec(compile(source, name, "exec"), scope)
        except Exception as e:
            rec("raised", "%s: %s" % (type(e).__name__, e))     # None of it does
        else:
            rec("end")

    @contextlib.contextmanager
    def giving(v):
        yield v
    helpers = {"rec_": rec, "val_": val, "giving_": giving, "ENVS_": es, "STR_": str, "D_": ctx.dir, "PipelineFailed_": pieshell.PipelineFailed}
    ss = {}
    mods = {}
    with ctx.stdio(True):
        for i, st in enumerate(steps):
            k = st[0]
            if k == "scope":
                s = pieshell.environ.EnvScope(env=es[st[2]])
                s["env"] = es[st[2]]
                for n, v in helpers.items():
                    s[n] = v
                ss[st[1]] = s
            elif k == "module":
                mods[st[1]] = dict(helpers, __name__="mod")
            elif k == "exec":
                if st[3] == "file":
                    path = ctx.path("f%d.pysh" % i)
                    with open(path, "w") as f:
                        f.write(st[2] + "\nrec_('end')\n")
                    ss[st[1]].execute_file(path)
                elif st[3] == "expr":
                    ss[st[1]].execute_expr(st[2])
                    rec("end")
                else:
                    run(st[2], "<case>", ss[st[1]])
            elif k == "mexec":
                run(st[2], "<module>", mods[st[1]])
            elif k == "locals":
                rec({n: val(v) for n, v in dict.items(ss[st[1]]) if not n.endswith("_")})
            elif k == "child":
                e = es[st[1]]
                f = ctx.path("dump%d" % i)
                +e._(os.path.join(os.environ["VF_BIN"], "vh"), "dump:" + f)
                with open(f, encoding="latin-1") as o:
                    d = json.load(o)
                rec({bytes.fromhex(x).split(b"=", 1)[0].decode("latin-1"): bytes.fromhex(x).split(b"=", 1)[1].decode("utf-8", "surrogateescape") for x in d["env"]})
    return {"log": log, "environ": {k: v for k, v in os.environ.items()}}
