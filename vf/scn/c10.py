"""Commands built by evaluating Python source, in a scope or as a module would"""
import asyncio
import json
import os
import pathlib

import pieshell
from pieshell import Redirect, PIPE
from .. import monitors


def run_how(ctx, p, how, out):
    """Runs p, which writes to standard out, and returns what it wrote"""
    loop = ctx.loop()
    if how == "bytes":
        return bytes(p)
    if how == "list":
        return "".join(l + "\n" for l in p).encode("utf-8", "surrogateescape")
    if how == "file":
        +(p > out)
    elif how == "await":
        async def main():
            await (p | out)
        loop.run_until_complete(main())
    elif how == "bg":
        loop.run_until_complete(((p > out) & True).wait())
    elif how == "pipe":
        return bytes(p | ctx.env.vh("nop:X", "cat"))
    elif how == "arg":
        return bytes(ctx.env.cat(p))
    elif how == "group":
        +((p + ctx.env.vh("nop:X", "drain")) > out)
    elif how == "run":
        async def main():
            await p.run([Redirect("stdout", out, os.O_WRONLY | os.O_CREAT)])
        loop.run_until_complete(main())
    else:
        raise ValueError(how)
    with open(out, "rb") as f:
        return f.read()


def tree(ctx, entries):
    for e in entries:
        path = ctx.path(e[1])
        try:
            if e[0] == "d":
                os.makedirs(path, exist_ok=True)
            elif e[0] == "l":
                os.symlink(e[2], path)
            else:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w"):
                    pass
        except OSError:
            raise


def exprs(ctx, mode, ops, cwd=".", exports=None, files=(), procdir=None):
    """ops are ["exec", SOURCE], ["run", NAME, HOW], ["tree", ENTRIES], ["repr", NAME]"""
    os.mkdir(ctx.path("bin"))
    os.symlink(
        os.path.join(os.environ["VF_BIN"], "vh"), ctx.path("bin/dumper"))
    tree(ctx, files)
    ex = dict(os.environ)
    ex.update({k: v.replace("@D", ctx.dir) for k, v in (exports or {}).items()})
    e = pieshell.env(cwd=os.path.join(ctx.dir, cwd), exports=ex)
    stuff = {"R": pieshell.R, "Path": pathlib.Path, "PurePath": pathlib.PurePosixPath, "D": ctx.dir}
    if mode == "scope":
        ns = pieshell.environ.EnvScope(env=e)
        ns["env"] = e
        for k, v in stuff.items():
            ns[k] = v
        ns["E"] = e
    else:
        ns = dict(stuff, E=e)
    ns["E2"] = ctx.env
    res = []
    if procdir:
        os.chdir(os.path.join(ctx.dir, procdir))
    try:
        with ctx.stdio(True):
            for i, op in enumerate(ops):
                if op[0] == "exec":
                    exec(compile(op[1], "<case>", "exec"), ns)
                    monitors.returned_in_child("exec")
                elif op[0] == "repr":
                    repr(eval(op[1], ns))
                elif op[0] == "tree":
                    tree(ctx, op[1])
                elif op[0] == "run":
                    p = eval(compile(op[1], "<case>", "eval"), ns)
                    try:
                        data = run_how(ctx, p, op[2], "%s.out%d" % (ctx.dir, i))
                    except pieshell.PipelineFailed as e:
                        res.append([i, None, str(e)[:1500]])
                        continue
                    monitors.returned_in_child("run")
                    try:
                        res.append([i, json.loads(data.decode("latin-1"))["argv"], None])
                    except ValueError:
                        res.append([i, None, "output is %r" % data[:300]])
    finally:
        if procdir:
            os.chdir(ctx.job["dir"])
    return {"res": res, "dir": ctx.dir}
