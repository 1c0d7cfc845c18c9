"""Many pipelines at once, in one or several event loops"""
import asyncio
import os
import time

import pieshell
from pieshell import Redirect, PIPE

from .. import monitors
from ..monitors import REAL
from .c15 import execed


def many(ctx, rounds):
    orig = ctx.loop()
    stoppers = []
    obs = {"pipes": {}, "blocked": [], "rounds": []}
    ctx.gates = {}
    ctx.gates_used = set()
    ctx.finished = set()

    def lines(ls):
        return ctx.save(b"".join(l.encode("utf-8", "surrogateescape") + b"\n" for l in ls))

    async def one(n, d, held, tick):
        o = obs["pipes"][n] = {}
        rp = None
        if d["start"]:
            await asyncio.sleep(d["start"] / 1000.)
        env = ctx.env() if d["ownenv"] else ctx.env
        p = ctx.build(d["node"], env)
        tick[2] += d["held"]
        mode = d["mode"]
        nap = d["nap"]
        got = []
        try:
            if mode == "file":
                name = "out_" + n
                o["out"] = os.path.join(os.path.basename(ctx.dir), name)
                rp = await (p > ctx.path(name))
            elif mode == "runfile":
                name = "out_" + n
                o["out"] = os.path.join(os.path.basename(ctx.dir), name)
                rp = (p > ctx.path(name)).run()
                if d.get("stopper"):
                    stoppers.append(rp)
                await rp
            else:
                if mode == "iterbytes":
                    rp = p.run([Redirect("stdout", PIPE)])
                    it = rp.iterbytes()
                elif mode == "raiter":
                    it = rp = p.run([Redirect("stdout", PIPE)])
                else:
                    it = p
                k = 0
                async for x in it:
                    monitors.returned_in_child("reader")
                    got.append(bytes(x) if mode == "iterbytes" else x)
                    k += 1
                    if nap and k <= 30:
                        await asyncio.sleep(nap / 1000.)
                    if d["holdread"] and k == 1:
                        tick[0] += 1
                        await held.wait()
        except (pieshell.PipelineError, Exception) as x:
            monitors.returned_in_child("except")
            o["exc"] = ctx.exc(x)
            if isinstance(x, pieshell.PipelineError):
                if rp is not None and x.pipeline is not rp:
                    o["exc"]["otherpipeline"] = True
                rp = x.pipeline
        if mode not in ("file", "runfile"):
            if mode == "iterbytes":
                o["out"] = ctx.save(b"".join(got))
            else:
                o["out"] = lines(got)
                o["bad_lines"] = sum(1 for l in got if not isinstance(l, str) or "\n" in l)
        if rp is not None:
            o["rp"] = ctx.describe(rp)
        tick[1] += 1

    async def round(r):
        held = asyncio.Event()
        tick = [0, 0, 0]
        held_tasks = {}
        tasks = {}
        del stoppers[:]
        for n, d in r["pipes"].items():
            (held_tasks if d["held"] else tasks)[n] = asyncio.get_event_loop().create_task(one(n, d, held, tick))
        if r["burst"]:
            await asyncio.sleep(r["burst"] / 1000.)
        frozen = [d for d in r["pipes"].values() if d.get("stopper")]
        if frozen:
            while len(stoppers) < len(frozen) or not execed():
                await asyncio.sleep(0.002)
            for rp in stoppers:
                rp.suspend()
        with open(ctx.path("burst_" + r["id"]), "w"):
            pass
        if frozen:
            # All of it happens before the shell looks
            time.sleep(0.04)
        if tasks:
            done, pending = await asyncio.wait(tasks.values(), timeout=25)
            if pending:
                obs["blocked"] += [n for n, t in tasks.items() if t in pending]
        info = {"beside": tick[1], "held": len(held_tasks), "held ended": sum(t.done() for t in held_tasks.values())}
        while tick[2] < len(held_tasks):
            await asyncio.sleep(0.001)
        held.set()
        for rp in stoppers:
            rp.restart()
        for i in r["gates"]:
            with open(ctx.path("go_" + i), "w"):
                pass
            if i in ctx.gates:
                ctx.gates[i].set()
        tasks.update(held_tasks)
        done, pending = await asyncio.wait(tasks.values(), timeout=25)
        obs["blocked"] += [n for n, t in tasks.items() if t in pending and n not in obs["blocked"]]
        for t in done:
            t.result()
        for t in pending:
            t.cancel()
        obs["rounds"].append(info)
        await asyncio.sleep(0)

    with ctx.stdio(True) as io:
        for r in rounds:
            if r["loop"] == "same":
                orig.run_until_complete(round(r))
            elif r["loop"] == "run":
                try:
                    asyncio.run(round(r))
                finally:
                    asyncio.set_event_loop(orig)
            else:
                loop = asyncio.new_event_loop()
                asyncio.set_event_loop(loop)
                try:
                    loop.run_until_complete(round(r))
                finally:
                    asyncio.set_event_loop(orig)
                    loop.close()
        obs["running"] = len(ctx.env.running_pipelines)
    obs["stdout"] = ctx.save(io.data())
    if ctx.log:
        obs["gotfile"] = {k: ctx.save("".join(l + "\0" for l in v).encode("utf-8", "surrogateescape")) for k, v in ctx.log.items()}
    return obs
