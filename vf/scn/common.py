"""The scenario most properties use: build a pipeline, run it in some way,
say what came out and how it ended."""
import asyncio
import os
import sys

import pieshell
from pieshell import Redirect, PIPE
from .. import monitors
from ..monitors import REAL


def read_mode(ctx, p, mode, obs):
    """Runs p, with its output read by Python, and returns what was read,
    as lines or as bytes"""
    loop = ctx.loop()
    got = []
    if mode == "bytes":
        got.append(bytes(p))
        return b"".join(got), None
    if mode == "str":
        return str(p).encode("utf-8"), None
    if mode == "iter":
        try:
            for l in p:
                monitors.returned_in_child("iteration")
                got.append(l)
        finally:
            obs["lines"] = len(got)
            obs["kinds"] = sorted({type(l).__name__ for l in got})
            obs["nl"] = any("\n" in l for l in got)
            ctx.partial = got
        return None, got
    if mode == "list":
        return None, list(p)
    if mode in ("aiter", "raiter"):
        async def main():
            if mode == "raiter":
                r = p.run([Redirect("stdout", PIPE)])
                ctx.rp = r
            else:
                r = p
            async for l in r:
                monitors.returned_in_child("iteration")
                got.append(l)
        ctx.partial = got
        loop.run_until_complete(main())
        return None, got
    if mode in ("iterbytes", "slowbytes"):
        chunks = []

        async def main():
            r = p.run([Redirect("stdout", PIPE)])
            ctx.rp = r
            async for b in r.iterbytes():
                chunks.append(bytes(b))
                if mode == "slowbytes":
                    await asyncio.sleep(0.001)
        ctx.partial_bytes = chunks
        loop.run_until_complete(main())
        return b"".join(chunks), None
    raise ValueError(mode)


READ_MODES = ("bytes", "str", "iter", "list", "aiter", "raiter", "iterbytes", "slowbytes")


def pl(ctx, node, mode, stdin=None, files=None, pending=None, gone=None):
    """Runs node in the way mode says."""
    obs = {}
    for name, content in (files or {}).items():
        with open(ctx.path(name), "wb") as f:
            f.write(bytes.fromhex(content))
    for name in gone or ():
        d = ctx.path("gone_" + name)
        os.mkdir(d)
        ctx.envs[name] = ctx.env(cwd=d)
        os.rmdir(d)
    loop = ctx.loop()
    ctx.partial = None
    ctx.partial_bytes = None
    ctx.rp = None
    if stdin is not None:
        stdin = bytes.fromhex(stdin)
    with ctx.stdio(True, stdin) as io:
        p = ctx.build(node) if not isinstance(node, pieshell.Pipeline) else node
        if pending:
            sys.stdout.write(pending)   # and not flushed
        lines = data = None
        try:
            if mode in READ_MODES:
                data, lines = read_mode(ctx, p, mode, obs)
            elif mode == "+":
                ctx.rp = +p
            elif mode == "await":
                async def main():
                    return await p
                ctx.rp = loop.run_until_complete(main())
            elif mode == "~":
                ctx.rp = ~p
                loop.run_until_complete(ctx.rp.wait())
            elif mode == "run":
                ctx.rp = p.run()

                async def main():
                    await ctx.rp
                loop.run_until_complete(main())
            elif mode == "ri":
                ctx.rp = p.run_interactive()
            else:
                raise ValueError(mode)
            monitors.returned_in_child("run")
        except (pieshell.PipelineError, Exception) as e:
            monitors.returned_in_child("except")
            obs["exc"] = ctx.exc(e)
            if isinstance(e, pieshell.PipelineError) and ctx.rp is not None and e.pipeline is not ctx.rp:
                obs["exc"]["otherpipeline"] = True
            if isinstance(e, pieshell.PipelineError):
                ctx.rp = e.pipeline
        if ctx.rp is not None:
            obs["rp"] = ctx.describe(ctx.rp)
        obs["running_pipelines"] = len(ctx.env.running_pipelines)
        if lines is None and data is None:
            if ctx.partial is not None:
                lines = list(ctx.partial)
            elif ctx.partial_bytes is not None:
                data = b"".join(ctx.partial_bytes)
        if lines is not None:
            obs["lines"] = len(lines)
            obs["out"] = ctx.save(b"".join(l.encode("utf-8", "surrogateescape") + b"\n" for l in lines))
            obs["bad_lines"] = sum(1 for l in lines if not isinstance(l, str) or "\n" in l)
        elif data is not None:
            obs["out"] = ctx.save(data)
        elif mode not in READ_MODES:
            obs["out"] = ctx.save(io.data())
    obs["stdout"] = ctx.save(io.data())
    obs["got"] = {k: len(v) for k, v in ctx.log.items()}
    if ctx.log:
        obs["gotfile"] = {k: ctx.save("".join(l + "\0" for l in v).encode("utf-8", "surrogateescape")) for k, v in ctx.log.items()}
    obs["wrote"] = {k: v[0] for k, v in ctx.wrote.items()}
    return obs
