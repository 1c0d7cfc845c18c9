"""Pipelines with subshells in them, in a shell with a state of its own"""
import asyncio
import gc
import os
import signal

import pieshell
from . import common
from .. import monitors
from ..monitors import REAL


def state(ctx):
    um = os.umask(0)
    os.umask(um)
    return {"environ": dict(os.environ), "cwd": os.getcwd(), "umask": um, "variables": dict(ctx.effects),
            "exports": dict(ctx.env._exports), "env cwd": ctx.env._cwd,
            "default env": [dict(pieshell.env._exports), pieshell.env._cwd],
            "signal": str(signal.getsignal(signal.SIGUSR1)), "pid": REAL["getpid"]()}


def sub(ctx, node, mode, stdin=None, pending=None, garbage=0, bg=None, dirs=(), again=False):
    loop = ctx.loop()
    for d in dirs:
        os.mkdir(ctx.path(d))
    pend = ctx.pendfile = open(ctx.path("pendfile"), "w")
    pend.write("pending\n")
    for i in range(garbage):
        # Left to the garbage collector
        open(ctx.path("garbage%d" % i), "w").write("garbage\n")
    before = state(ctx)
    late = []
    if bg:
        ctx.gates, ctx.gates_used, ctx.finished = {}, set(), set()
        other = ~ctx.build(bg["node"])
        for id in ctx.gates_used:
            pass

        async def background():
            for i in range(2000):
                if os.path.exists(ctx.path("subpid")):
                    break
                await asyncio.sleep(0.002)
            for gate in ctx.gates.values():
                gate.set()
            try:
                await asyncio.wait_for(asyncio.shield(asyncio.ensure_future(other.wait())), 5)
            except asyncio.TimeoutError:
                late.append(1)
            with open(ctx.path("go_sub"), "w"):
                pass
        task = loop.create_task(background())
    obs = {}
    try:
        obs = common.pl(ctx, node, mode, stdin, pending=pending)
        if again:
            os.rename(ctx.path("stdout"), ctx.path("stdout1"))
            obs["again"] = common.pl(ctx, node, mode, stdin)
    except BaseException:
        monitors.returned_in_child("subshell except")
        raise
    finally:
        monitors.returned_in_child("subshell finally")
    if bg:
        loop.run_until_complete(asyncio.wait_for(task, 20))
        obs["bg"] = {"late": bool(late), "rp": ctx.describe(other)}
        if os.path.exists(ctx.path("bgout")):
            obs["bg"]["out"] = os.path.join(os.path.basename(ctx.dir), "bgout")
    after = state(ctx)
    obs["changed"] = [[k, str(before[k])[:200], str(after[k])[:200]] for k in before if before[k] != after[k]]
    pend.write("after\n")
    pend.close()
    with open(ctx.path("pendfile")) as f:
        obs["pendfile"] = f.read()
    pend = ctx.pendfile = None
    if garbage:
        for i in range(3):
            gc.collect()
        obs["garbage"] = []
        for i in range(garbage):
            with open(ctx.path("garbage%d" % i)) as f:
                obs["garbage"].append(f.read())
    obs["subpids"] = []
    if os.path.exists(ctx.path("subpids")):
        with open(ctx.path("subpids")) as f:
            obs["subpids"] = [l.split() for l in f.read().splitlines()]
    obs["main"] = REAL["getpid"]()
    obs["markers"] = {}
    for root, ds, fs in os.walk(ctx.dir):
        for f in fs:
            if f.startswith("marker_"):
                with open(os.path.join(root, f)) as fd:
                    obs["markers"][os.path.relpath(os.path.join(root, f), ctx.dir)] = fd.read()
    return obs
