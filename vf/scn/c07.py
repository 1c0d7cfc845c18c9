"""Histories of pipelines in one shell; what the shell had before is
compared by the worker with what it has afterwards."""
import asyncio
import os
import sys

import pieshell
from pieshell import Redirect, PIPE
from . import common, c04, c25
from .. import monitors
from ..monitors import REAL


def ids(fd):
    s = os.fstat(fd)
    return [s.st_dev, s.st_ino]


def ints(ctx, node, files, mode="+"):
    """Redirects from and to descriptors the shell has"""
    ctx.fds = {}
    was = {}
    obs = {"closed": [], "open": []}
    for name, (path, flags, borrowed) in files.items():
        fd = os.open(ctx.path(path), flags | os.O_CREAT, 0o666)
        ctx.fds[name] = fd
        was[name] = ids(fd)
    o = common.pl(ctx, node, mode)
    obs["exc"] = o.get("exc")
    for name, (path, flags, borrowed) in files.items():
        fd = ctx.fds[name]
        try:
            there = ids(fd) == was[name]
        except OSError:
            there = False
        if borrowed:
            if there:
                REAL["close"](fd)
                obs["open"].append(name)
            else:
                obs["closed"].append(name)
        elif there:
            obs["open"].append(name)
    obs["rp"] = o.get("rp")
    return obs


def tmp(ctx, node, remove):
    obs = {}
    before = set(os.listdir(os.environ["TMPDIR"]))
    with ctx.stdio(True):
        try:
            rp = +ctx.build(node)
        except pieshell.PipelineFailed as e:
            rp = e.pipeline
        monitors.returned_in_child("tmp")
        files = sorted({f.path for p in rp.processes for f in p.output_files.values()})
        obs["files"] = [[os.path.dirname(f), os.path.basename(f), os.path.exists(f)] for f in files]
        obs["new"] = sorted(set(os.listdir(os.environ["TMPDIR"])) - before)
        if remove:
            rp.remove_output_files()
            obs["after"] = sorted(set(os.listdir(os.environ["TMPDIR"])) - before)
            for f in files:
                if os.path.exists(f):
                    obs["left"] = f
        obs["tmpdir"] = os.environ["TMPDIR"]
    return obs


def conc(ctx, nodes, read):
    """Several at once"""
    with ctx.stdio(True):
        async def one(node, how):
            p = ctx.build(node)
            try:
                if how == "read":
                    return [l async for l in p]
                elif how == "bytes":
                    return [b async for b in p.run([Redirect("stdout", PIPE)]).iterbytes()]
                await p
            except pieshell.PipelineFailed:
                pass

        async def main():
            await asyncio.gather(*[one(n, r) for n, r in zip(nodes, read)])
        ctx.loop().run_until_complete(main())
        monitors.returned_in_child("conc")
    return {}


def suspend(ctx, node, times):
    with ctx.stdio(True):
        async def main():
            rp = ctx.build(node).run()
            for i in range(times):
                rp.suspend()
                await asyncio.sleep(0.002)
                rp.restart()
                await asyncio.sleep(0.001)
            try:
                await rp
            except pieshell.PipelineFailed:
                pass
        ctx.loop().run_until_complete(main())
        monitors.returned_in_child("suspend")
    return {}


def builtins(ctx, what):
    env = ctx.env
    with ctx.stdio(True):
        if what == "cd":
            os.makedirs(ctx.path("d/e"), exist_ok=True)
            e = env(exports=dict(env._exports))
            +e.cd(ctx.path("d"))
            +e.cd("e")
            try:
                +e.cd("nowhere")
            except pieshell.PipelineFailed:
                pass
            except OSError:
                pass
        elif what == "bash":
            with open(ctx.path("b.sh"), "w") as f:
                f.write("export VF_X=1\nVF_Y=2\nf() { echo hi; }\n")
            e = env(exports=dict(env._exports))
            +e.bashsource(ctx.path("b.sh"))
        elif what == "bashfail":
            with open(ctx.path("bf.sh"), "w") as f:
                f.write("exit 3\n")
            e = env(exports=dict(env._exports))
            try:
                +e.bashsource(ctx.path("bf.sh"))
            except pieshell.PipelineFailed:
                pass
        elif what == "sub":
            list(env.subshell(env.vh("w:68690a") | env.vh("cat"), "x"))
        elif what == "subfail":
            try:
                list(env.subshell(env.vh("x:3"), "x"))
            except pieshell.PipelineFailed:
                pass
        elif what == "clear":
            +env.clear_dir_cache()
            dir(env)
        elif what == "import":
            import importlib
            name = "vfmod%d" % len(sys.modules)
            with open(ctx.path(name + ".pysh"), "w") as f:
                f.write("x = 1\nlines = list(vh('w:68690a'))\n")
            sys.path.insert(0, ctx.dir)
            try:
                m = importlib.import_module(name)
                assert m.lines == ["hi"], m.lines
            finally:
                sys.path.remove(ctx.dir)
        elif what == "repr":
            repr(env.vh("w:61") | env.vh("cat") | "/dev/null")
            repr(env.vh("w:61", [1, 2]) + env.vh("x:1"))
        elif what == "coerce":
            bytes(env.vh("cat") < b"/dev/null")
            env.vh("cat") | [1, 2, 3]
    monitors.returned_in_child("builtins")
    return {}


SUB = {"pl": common.pl, "sched": c04.sched, "nostart": c25.nostart, "ints": ints, "tmp": tmp, "conc": conc,
       "suspend": suspend, "builtins": builtins}


def history(ctx, steps):
    res = []
    setup = False
    for i, s in enumerate(steps):
        p = dict(s["p"])
        # Each in a directory of its own
        ctx.dir = os.path.join(ctx.job["dir"], os.path.basename(ctx.dir).split("_")[0] + "_%d" % i)
        os.mkdir(ctx.dir)
        ctx.env = pieshell.env(cwd=ctx.dir)
        ctx.envs = {}
        ctx.log = {}
        ctx.wrote = {}
        o = SUB[s["scn"]](ctx, **p)
        keep = {k: o[k] for k in ("exc", "files", "new", "after", "left", "closed", "open", "early", "stuck", "unended", "tmpdir") if k in o}
        if "exc" in keep and keep["exc"]:
            keep["exc"] = {k: v for k, v in keep["exc"].items() if k in ("type", "tb", "str")}
            if keep["exc"].get("str"):
                keep["exc"]["str"] = keep["exc"]["str"][:300]
        res.append(keep)
    return {"steps": res}
