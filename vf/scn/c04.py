"""Waiting, with the order in which the parts of a pipeline end, and waiters
start and are cancelled, controlled by the case."""
import asyncio
import os
import signal

import pieshell
from pieshell import Redirect, PIPE
from .. import monitors
from ..monitors import M, REAL


def sched(ctx, node, top, steps, gated, read=False):
    loop = ctx.loop()
    obs = {"waiters": {}, "early": [], "checks": 0, "states": []}
    ctx.gates = {}
    ctx.finished = set()
    released = set()
    tasks = {}
    st = {"rp": None}

    def look():
        """What has really ended"""
        kids = monitors.children()
        return {"live": sorted(M.seqno(pid) for pid in kids if pid in M.forked),
                "unfinished": sorted(i for i in ctx.gates_used if i not in ctx.finished)}

    def done(name, exc):
        rp = st["rp"]
        if rp is None:
            rp = st["rp"] = ctx.env.last_pipeline
        monitors.returned_in_child("waiter")
        obs["waiters"][name] = dict(look(), exc=exc, is_running=rp.is_running, running=len(rp.running_processes),
                                    released=len(released))

    async def waiter(name, kind):
        rp = st["rp"]
        exc = None
        try:
            if kind == "read":
                async for l in rp:
                    pass
            elif kind == "readbytes":
                async for l in rp.iterbytes():
                    pass
            elif kind == "await":
                await rp
            elif kind == "poll":
                while rp.is_running:
                    await asyncio.sleep(0)
                await rp.wait()
            else:
                await rp.wait()
        except asyncio.CancelledError:
            obs["waiters"][name] = {"exc": "CancelledError"}
            raise
        except pieshell.PipelineError as e:
            exc = type(e).__name__
            if e.pipeline is not rp:
                exc += " of another pipeline"
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__, e)
        done(name, exc)

    async def pid_of(id):
        for i in range(2000):
            try:
                with open(ctx.path("pid_" + id)) as f:
                    return int(f.read())
            except (OSError, ValueError):
                await asyncio.sleep(0.005)
        return None

    def check():
        """Nothing that was not told to end has, and so no wait"""
        rp = st["rp"]
        if rp is None:
            rp = st["rp"] = ctx.env.__dict__.get("last_pipeline")
            if rp is None:
                return
        unreleased = [i for i in gated if i not in released]
        if not unreleased:
            return
        obs["checks"] += 1
        d = ctx.describe(rp, False)
        for p in d["parts"]:
            if p["id"] in unreleased and not (p["running"] and p["inrunning"]):
                obs["early"].append("%s is_running is %s, before it has ended" % (p["id"], p["running"]))
        if not d["running"]:
            obs["early"].append("is_running of the pipeline is false, but %s have not ended" % unreleased)
        for name, w in obs["waiters"].items():
            if w["exc"] != "CancelledError":
                obs["early"].append("waiting ended (%s), but %s have not" % (w, unreleased))
        if rp not in ctx.env.running_pipelines:
            obs["early"].append("not in running_pipelines, but %s have not ended" % unreleased)

    async def driver():
        try:
            await drive()
        except Exception:
            # A mistake in this file
            st["error"] = True
            for i in gated:
                with open(ctx.path("go_" + i), "w"):
                    pass
                if i in ctx.gates:
                    ctx.gates[i].set()
            raise

    async def drive():
        for s in steps:
            op = s[0]
            if op == "go":
                released.add(s[1])
                if s[1] in ctx.gates:
                    ctx.gates[s[1]].set()
                else:
                    with open(ctx.path("go_" + s[1]), "w"):
                        pass
            elif op in ("kill", "stop", "cont"):
                pid = await pid_of(s[1])
                if pid is None:
                    obs["nopid"] = s[1]
                    continue
                sig = {"stop": signal.SIGSTOP, "cont": signal.SIGCONT}.get(op) or s[2]
                if op == "kill":
                    released.add(s[1])
                if monitors.state(pid) not in (None, "Z"):
                    REAL["kill"](pid, sig)
            elif op == "wait":
                tasks[s[1]] = loop.create_task(waiter(s[1], s[2]))
            elif op == "cancel":
                tasks[s[1]].cancel()
            elif op == "yield":
                for i in range(s[1]):
                    await asyncio.sleep(0)
            elif op == "sleep":
                await asyncio.sleep(s[1] / 1000.)
            check()
        # Everything ends now
        for i in range(1500):
            kids = monitors.children()
            if all(k[0] == "Z" for pid, k in kids.items() if pid in M.forked):
                break
            await asyncio.sleep(0.01)
        else:
            obs["unended"] = {str(k): v for k, v in kids.items()}
        for i in range(400):
            if all(t.done() for t in tasks.values()) and (top == "tasks" or "top" in obs["waiters"]):
                break
            await asyncio.sleep(0.02)
        else:
            obs["stuck"] = sorted(n for n, t in tasks.items() if not t.done())
            if top != "tasks":
                obs["stuck"].append("top")
                obs["stuckrp"] = ctx.describe(st["rp"], False) if st["rp"] else None
                # Nothing else would ever end the wait
                asyncio.get_event_loop().stop()

    with ctx.stdio(True, None):
        ctx.gates_used = set()
        p = ctx.build(node)
        if top == "tasks":
            async def main():
                st["rp"] = p.run([Redirect("stdout", PIPE)] if read else [])
                await driver()
                late = []
                rp = st["rp"]
                if not obs.get("stuck"):
                    for i in range(2):
                        await waiter("late%d" % i, "wait")
                return rp
            rp = loop.run_until_complete(main())
        else:
            d = loop.create_task(driver())
            exc = None
            rp = None
            try:
                if top == "+":
                    rp = +p
                elif top == "bytes":
                    bytes(p)
                elif top == "list":
                    list(p)
                elif top == "ri":
                    rp = p.run_interactive()
                elif top == "await":
                    async def main():
                        return await p
                    rp = loop.run_until_complete(main())
            except pieshell.PipelineError as e:
                exc = type(e).__name__
                rp = e.pipeline
            except RuntimeError as e:
                exc = "RuntimeError: %s" % e
            monitors.returned_in_child("top")
            if "stuck" not in obs:
                done("top", exc)
                if rp is not None and rp is not st["rp"]:
                    obs["early"].append("waited for another pipeline than last_pipeline")
            loop.run_until_complete(d)
            rp = st["rp"]
        obs["rp"] = ctx.describe(rp)
        for i in range(3):
            loop.run_until_complete(asyncio.sleep(0))
            obs["states"].append([rp.is_running, len(rp.running_processes), any(x.is_running for x in rp.processes),
                                  rp in ctx.env.running_pipelines])
        for t in tasks.values():
            if not t.done():
                t.cancel()
    return obs
