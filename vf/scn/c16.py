"""The same pipelines, run over and over, alone and at the same time"""
import asyncio
import os
import signal

import pieshell
from pieshell import PIPE, Redirect
from .. import monitors
from ..monitors import M, REAL

evaluate = None


class Broken(object):
    def __repr__(self):
        raise ValueError("repr")


def prompt(p):
    """What the prompt of Python does with what it has evaluated"""
    return pieshell.pipeline.base.standard_repr(p)


def reruns(ctx, nodes, ops, interactive):
    loop = ctx.loop()
    cwd = os.getcwd()
    env = ctx.env = ctx.env(interactive=interactive)
    obs = {"ops": [], "reprs": []}
    ps = [ctx.build(n) for n in nodes]
    before = [repr(p) for p in ps]
    nout = [0]

    def describe(e, rp):
        if rp is not None:
            e["rp"] = ctx.describe(rp)

    def lines(ls):
        return ctx.save(b"".join(l.encode("utf-8", "surrogateescape") + b"\n" for l in ls))

    async def one(i, mode, wait):
        """A run in a task"""
        e = {"p": i, "mode": mode}
        rp = None
        if wait:
            await asyncio.sleep(wait / 1000.)
        try:
            if mode == "iterbytes":
                chunks = []
                try:
                    rp = ps[i].run([Redirect("stdout", PIPE)])
                    async for b in rp.iterbytes():
                        chunks.append(bytes(b))
                finally:
                    e["out"] = ctx.save(b"".join(chunks))
            elif mode in ("raiter", "aiter"):
                ls = []
                try:
                    if mode == "raiter":
                        it = rp = ps[i].run([Redirect("stdout", PIPE)])
                    else:
                        it = ps[i]
                    async for l in it:
                        ls.append(l)
                finally:
                    e["out"] = lines(ls)
                    e["lines"] = True
            elif mode in ("file", "runfile"):
                nout[0] += 1
                f = ctx.path("out%d" % nout[0])
                e["out"] = os.path.join(os.path.basename(ctx.dir), "out%d" % nout[0])
                if mode == "file":
                    rp = await (ps[i] | f)
                else:
                    rp = (ps[i] > f).run()
                    await rp
        except pieshell.PipelineError as x:
            monitors.returned_in_child("except")
            e["exc"] = ctx.exc(x)
            rp = x.pipeline
        describe(e, rp)
        return e

    def sync(i, mode, k=None, ms=None):
        e = {"p": i, "mode": mode}
        rp = None
        size = len(io.data())
        h = None
        if ms is not None:
            h = loop.call_later(ms / 1000., lambda: REAL["kill"](os.getpid(), getattr(signal, k)))
        try:
            if mode == "bytes":
                e["out"] = ctx.save(bytes(ps[i]))
            elif mode == "list":
                e["out"] = lines(list(ps[i]))
                e["lines"] = True
            elif mode == "+file":
                nout[0] += 1
                e["out"] = os.path.join(os.path.basename(ctx.dir), "out%d" % nout[0])
                rp = +(ps[i] | ctx.path("out%d" % nout[0]))
            elif mode in ("+", "prompt"):
                try:
                    if mode == "+":
                        rp = +ps[i]
                    else:
                        e["repr"] = prompt(ps[i])
                        rp = env.last_pipeline
                finally:
                    monitors.returned_in_child("run")
                    e["out"] = ctx.save(io.data()[size:])
            elif mode == "promptint":
                # Interrupted or suspended; told to end afterwards
                try:
                    e["repr"] = prompt(ps[i])
                    rp = env.last_pipeline
                finally:
                    monitors.returned_in_child("run")
                    e["after"] = bool(rp is not None and rp.is_running)
                    e["size"] = len(io.data()) - size
        except pieshell.PipelineError as x:
            monitors.returned_in_child("except")
            e["exc"] = ctx.exc(x)
            rp = x.pipeline
        if h is not None:
            h.cancel()
        if mode == "promptint":
            with open(ctx.path("go"), "w"):
                pass
            try:
                loop.run_until_complete(rp.wait())
            except pieshell.PipelineError as x:
                e["exc2"] = type(x).__name__
            os.unlink(ctx.path("go"))
            e["out"] = ctx.save(io.data()[size:])
        describe(e, rp)
        return e

    with ctx.stdio(True) as io:
        for op in ops:
            n = len(M.forked)
            size = len(io.data())
            if op[0] == "par":
                async def main():
                    return await asyncio.gather(*[one(*r) for r in op[1]])
                res = loop.run_until_complete(main())
            elif op[0] == "sync":
                res = [sync(*op[1:])]
            elif op[0] == "repr":
                p = ps[op[1]]
                e = {}
                if op[2] == "repr":
                    e["repr"] = repr(p)
                elif op[2] == "list":
                    e["repr"] = repr([p])[1:-1]
                elif op[2] == "name":
                    e["repr"] = p.__name__
                elif op[2] == "format":
                    e["repr"] = "%r" % (p,) if not interactive else repr(p)
                elif op[2] == "prompt":
                    e["repr"] = prompt(p) if not interactive else repr(p)
                elif op[2] == "broken":
                    # What can't be printed is no reason not to print the rest
                    e["broken"] = [repr(x) for x in (Broken(), [Broken(), p], {"x": Broken()})]
                    e["repr"] = repr(p)
                elif op[2] == "env":
                    e["repr"] = repr(p)
                    str(env), repr(env), p.__doc__ if not isinstance(p, pieshell.Command) else None
                e["same"] = e["repr"] == before[op[1]] or op[2] == "name" and before[op[1]] == "%s in %s" % (e["repr"], repr(env))
                e["out"] = len(io.data()) - size
                res = [e]
            obs["ops"].append({"res": res, "forks": len(M.forked) - n})
            loop.run_until_complete(asyncio.sleep(0))
    obs["after"] = [repr(p) for p in ps]
    obs["before"] = before
    obs["running"] = len(env.running_pipelines)
    os.chdir(cwd)
    return obs
