"""Histories of several environments"""
import json
import os

import pieshell
from .. import monitors


def hexenv(d):
    return {os.fsencode(k).hex(): os.fsencode(v).hex() for k, v in dict(d).items()}


def envs(ctx, ops, dirs):
    for d in dirs:
        os.makedirs(ctx.path(d), exist_ok=True)
    os.symlink("d1", ctx.path("link"))
    with open(ctx.path("file"), "w"):
        pass
    os.mkdir(ctx.path("closed"))
    os.chmod(ctx.path("closed"), 0)
    for d in ("pa", "pb", "pc", "d2"):
        os.makedirs(ctx.path(d), exist_ok=True)
        with open(ctx.path(d + "/vftool"), "w") as f:
            f.write("#!/bin/sh\necho %s\n" % d)
        os.chmod(ctx.path(d + "/vftool"), 0o644 if d == "pc" else 0o755)
    loop = ctx.loop()
    root = pieshell.env
    save = dict(os.environ)
    savecwd = os.getcwd()
    saveroot = root._cwd
    os.chdir(ctx.dir)
    root._cd(ctx.dir)
    es = ctx.envs
    es["0"] = root
    pls = {}
    bgs = {}
    cds = {}
    log = []
    sub = lambda s: s.replace("@D", ctx.dir)

    def collect(ids):
        res = {}
        for id in ids:
            f = ctx.path("dump_" + id)
            if os.path.exists(f):
                with open(f, encoding="latin-1") as o:
                    res[id] = json.load(o)
                res[id]["fds"] = {fd: bytes.fromhex(x["link"]).decode("latin-1") for fd, x in res[id]["fds"].items()}
                os.unlink(f)
        return res
    try:
        with ctx.stdio(True):
            for i, op in enumerate(ops):
                k = op[0]
                entry = {}
                if k == "new":
                    _, new, src, how, arg = op
                    e = es[src]
                    if how == "copy":
                        es[new] = e()
                    elif how == "cwd":
                        es[new] = e(cwd=sub(arg))
                    elif how == "pos":
                        es[new] = e(sub(arg))
                    elif how == "item":
                        es[new] = e[sub(arg)]
                    elif how == "exports":
                        es[new] = e(exports={a: sub(b) for a, b in arg.items()})
                    elif how == "interactive":
                        es[new] = e(interactive=True)
                    elif how == "not interactive":
                        es[new] = e(interactive=False)
                    elif how == "class":
                        es[new] = pieshell.Environment(cwd=sub(arg), exports=dict(e._exports))
                elif k == "cd":
                    _, en, path, how = op
                    e = es[en]
                    path = [sub(x) for x in path]
                    # One that has been run before is as good as a new one
                    cd = cds.setdefault((en, tuple(path)), e.cd(*path))
                    try:
                        if how == "_cd":
                            e._cd(path[0])
                        elif how == "attr":
                            p = e.cd
                            for x in path:
                                p = getattr(p, x)
                            +p
                        elif how == "~":
                            ~cd
                        elif how == "call":
                            p = e.cd
                            for x in path:
                                p = p(x)
                            +p
                        elif how == "await":
                            async def main():
                                await cd
                            loop.run_until_complete(main())
                        elif how == "scope":
                            s = pieshell.environ.EnvScope(env=e)
                            s["env"] = e
                            exec("+cd(%s)" % ", ".join(map(ascii, path)), s)
                            e._scope = None
                        elif how == "repr":
                            entry["repr"] = pieshell.pipeline.base.standard_repr(cd)
                        else:
                            +cd
                    except OSError as x:
                        entry["exc"] = type(x).__name__
                elif k == "set":
                    _, en, name, value, how = op
                    e = es[en]
                    value = sub(value)
                    if how == "scope" or how == "exports":
                        s = pieshell.environ.EnvScope(env=e)
                        s["env"] = e
                        if how == "scope":
                            exec("%s = %s" % (name, ascii(value)), s)
                        else:
                            exec("exports[%s] = %s" % (ascii(name), ascii(value)), s)
                        e._scope = None
                    else:
                        e._exports[name] = value
                elif k == "del":
                    es[op[1]]._exports.pop(op[2], None)
                elif k == "default":
                    _, en, spec = op
                    t = sub(spec["to"]) if isinstance(spec["to"], str) else spec["to"]
                    if spec["form"] == "|":
                        es[en] | t
                    elif spec["form"] == "ror":
                        t | es[en]
                    elif spec["form"] == "new":
                        es[spec["new"]] = es[en](redirects=pieshell.redir.Redirects(
                            es[en]._redirects, pieshell.Redirect(spec["fd"], t, spec["flag"])))
                    else:
                        es[en] | pieshell.Redirect(spec["fd"], t, spec["flag"])
                elif k == "find":
                    _, en, path = op
                    if path is not None:
                        es[en]._exports["PATH"] = sub(path)
                    try:
                        entry["found"] = str(es[en].vftool())
                    except pieshell.PipelineFailed as x:
                        entry["found"] = None
                elif k == "chdir":
                    os.chdir(sub(op[1]))
                elif k == "environ":
                    os.environ[op[1]] = op[2]
                elif k == "build":
                    pls[op[1]] = ctx.build(op[2])
                elif k == "run":
                    try:
                        +pls[op[1]]
                    except pieshell.PipelineFailed as x:
                        entry["failed"] = str(x)[:1500]
                    monitors.returned_in_child("run")
                    entry["dumps"] = collect(op[2])
                elif k == "bg":
                    bgs[op[1]] = ~pls[op[1]]
                elif k == "wait":
                    try:
                        loop.run_until_complete(bgs[op[1]].wait())
                    except pieshell.PipelineFailed as x:
                        entry["failed"] = str(x)[:1500]
                    entry["dumps"] = collect(op[2])
                monitors.returned_in_child("op")
                entry["cwds"] = {n: e._cwd for n, e in es.items()}
                entry["exports"] = {n: hexenv(e._exports) for n, e in es.items()} if i % 4 == 0 or i == len(ops) - 1 else None
                entry["pcwd"] = os.getcwd()
                entry["environ"] = hexenv(os.environ)
                log.append(entry)
    finally:
        root._cwd = saveroot
        os.chdir(savecwd)
        for n in list(os.environ):
            if n not in save:
                del os.environ[n]
        for n, v in save.items():
            if os.environ.get(n) != v:
                os.environ[n] = v
        root._redirects = pieshell.Environment()._redirects
        os.chmod(ctx.path("closed"), 0o755)
    return {"log": log, "dir": ctx.dir, "environ": hexenv(save)}
