"""Jobs, stopped, continued and waited for"""
import asyncio
import os
import signal
import time

import pieshell
from .. import monitors
from ..monitors import M, REAL


def execed():
    """Whether every process has become the program it is to run"""
    with open("/proc/self/comm") as f:
        me = f.read().rstrip("\n")
    return not any(st != "Z" and name == me for st, name in monitors.children().values())


def preexec(ctx):
    """A process stopped before it has become the program"""
    loop = ctx.loop()
    env = ctx.env = ctx.env(interactive=True)
    gate = asyncio.Event()
    obs = {}

    async def source(stdin):
        await gate.wait()
        yield "a"

    async def main():
        p = pieshell.Function(env, source) | env.vh("lcat", "nop:C1") | ctx.path("out")
        rp = p.run()
        while not execed():
            await asyncio.sleep(0.01)
        other = env.vh("sl:1", "nop:C2").run()
        obs["before"] = not execed()
        other.suspend()
        gate.set()
        try:
            await asyncio.wait_for(rp.wait(), 1.5)
            obs["ended"] = True
        except asyncio.TimeoutError:
            obs["ended"] = False
        other.restart()
        await rp.wait()
        await other.wait()
        with open(ctx.path("out")) as f:
            obs["out"] = f.read()
    cwd = os.getcwd()
    loop.run_until_complete(main())
    os.chdir(cwd)
    return obs


def jobs(ctx, nodes, steps, silent):
    loop = ctx.loop()
    cwd = os.getcwd()
    env = ctx.env = ctx.env(interactive=True)
    obs = {"steps": [], "bad": [], "seen": 0}
    rps = {}
    stopped = set()
    done = set()
    released = set()
    pids = {}

    def ctrlz(i=0):
        monitors.returned_in_child("ctrl-z")
        # See preexec
        if i < 1000 and not execed():
            hs.append(loop.call_later(0.002, ctrlz, i + 1))
            return
        REAL["kill"](os.getpid(), signal.SIGTSTP)

    hs = []

    def states(n):
        """{part: state} of the processes of a job that are still there"""
        res = {}
        for p in rps[n].processes:
            if isinstance(p, pieshell.RunningProcess):
                st = monitors.state(p.pid) if M.children.get(p.pid) == "live" else None
                if st not in (None, "Z"):
                    res[M.seqno(p.pid)] = st
        return res

    def sizes():
        res = {}
        for i in range(len(nodes)):
            f = ctx.path("out%d" % i)
            res[i] = os.stat(f).st_size if os.path.exists(f) else None
        return res

    def check(what):
        """Whether what should be stopped is, and what should not is not"""
        def wrong():
            res = []
            for n in rps:
                if n in done:
                    continue
                for i, st in states(n).items():
                    if (st in "Tt") != (n in stopped):
                        res.append("process %s of job %s is in state %s" % (i, n, st))
            return res
        for i in range(300):
            w = wrong()
            if not w:
                break
            loop.run_until_complete(asyncio.sleep(0.001 * i))
            if i > 100:
                break
        if w:
            obs["bad"].append([what, w])
            return
        obs["seen"] += sum(len(states(n)) for n in stopped)
        if stopped:
            s = {n: sizes()[n] for n in stopped}
            loop.run_until_complete(asyncio.sleep(0.008))
            w = wrong()
            s2 = {n: sizes()[n] for n in stopped}
            if w or any(s[n] != s2[n] for n in s if silent[n]):
                obs["bad"].append([what + ", then", w or "output of what is stopped: %s, %s" % (s, s2)])
        for n in rps:
            if n in stopped:
                rp = rps[n]
                if not rp.is_running or rp not in env.running_pipelines:
                    obs["bad"].append([what, "is_running of stopped job %s is %s, in running_pipelines: %s" % (n, rp.is_running, rp in env.running_pipelines)])

    def run(how, n, entry):
        p = ps.get(n)
        if how == "+":
            rps[n] = +p
        elif how == "ri":
            rps[n] = p.run_interactive()
        elif how == "awaitp":
            async def main():
                return await p
            rps[n] = loop.run_until_complete(main())
        elif how == "prompt":
            entry["repr"] = pieshell.pipeline.base.standard_repr(p)
        elif how == "wait":
            loop.run_until_complete(rps[n].wait())
        elif how == "await":
            async def main():
                await rps[n]
            loop.run_until_complete(main())
        elif how == "fg":
            +env.fg
        elif how == "fgarg":
            +env.fg(rps[n])
        elif how == "fgawait":
            async def main():
                await env.fg(rps[n])
            loop.run_until_complete(main())
        elif how == "fgprompt":
            entry["repr"] = pieshell.pipeline.base.standard_repr(env.fg)
        else:
            raise ValueError(how)

    ps = {}
    for n, node in enumerate(nodes):
        ps[n] = ctx.build(node)
    with ctx.stdio(True):
        for st in steps:
            k = st[0]
            entry = {}
            os.write(2, ("step %s\n" % str(st)[:100]).encode())      # In the report of a hang
            n = st[1]
            if k == "start":
                p = ps[n]
                if st[2] == "run":
                    rps[n] = p.run()
                elif st[2] == "~":
                    rps[n] = ~p
                elif st[2] == "&True":
                    rps[n] = p & True
                else:
                    rps[n] = p & None
                if not isinstance(rps[n], pieshell.RunningPipeline):
                    obs["bad"].append([str(st), "gave a %s" % type(rps[n])])
            elif k in ("fg", "fgstart"):
                # Waited for, until CTRL-Z or the end
                _, n, how, ms, times = st
                del hs[:]
                if ms is not None:
                    for t in range(times):
                        hs.append(loop.call_later(ms / 1000., ctrlz))
                entry["exc"] = None
                t0 = time.time()
                try:
                    run(how, n, entry)
                except pieshell.PipelineError as e:
                    entry["exc"] = ctx.exc(e)
                    if n not in rps:
                        rps[n] = e.pipeline
                    entry["same"] = e.pipeline is rps[n]
                if n not in rps:
                    rps[n] = env.last_pipeline      # the prompt says nothing
                for h in hs:
                    h.cancel()
                if ms is None:
                    done.add(n)
                    stopped.discard(n)
                else:
                    stopped.add(n)
            elif k == "waiters":
                _, n, kinds, cancels, ms = st
                got = []

                async def waiter(kind):
                    try:
                        if kind == "wait":
                            await rps[n].wait()
                        else:
                            await rps[n]
                    except asyncio.CancelledError:
                        got.append("cancelled")
                        raise
                    except pieshell.PipelineError as e:
                        got.append(type(e).__name__)
                    else:
                        got.append(None)

                async def main():
                    ts = [loop.create_task(waiter(kind)) for kind in kinds]
                    await asyncio.sleep(ms / 2000.)
                    for c in cancels:
                        ts[c].cancel()
                    await asyncio.sleep(ms / 2000.)
                    while not execed():
                        await asyncio.sleep(0.002)
                    ctrlz()
                    await asyncio.wait(ts, timeout=4)
                    for t in ts:
                        if not t.done():
                            got.append("still waiting")
                            t.cancel()
                loop.run_until_complete(main())
                entry["waiters"] = sorted(map(str, got))
                stopped.add(n)
            elif k == "suspend":
                while not execed():
                    loop.run_until_complete(asyncio.sleep(0.002))
                if st[2:] == ["kill"]:
                    # By something else
                    for proc in rps[n].processes:
                        if isinstance(proc, pieshell.RunningProcess) and M.children.get(proc.pid) == "live":
                            REAL["kill"](proc.pid, signal.SIGSTOP)
                else:
                    rps[n].suspend()
                stopped.add(n)
            elif k == "cont":
                if st[2] == "restart":
                    rps[n].restart()
                elif st[2] == "bg":
                    +env.bg
                elif st[2] == "bgarg":
                    +env.bg(rps[n])
                elif st[2] == "bgrun":
                    env.bg(rps[n]).run()
                elif st[2] == "bgprompt":
                    pieshell.pipeline.base.standard_repr(env.bg)
                stopped.discard(n)
            elif k == "go":
                for i in st[2]:
                    with open(ctx.path("go_" + i), "w"):
                        pass
            elif k == "sleep":
                loop.run_until_complete(asyncio.sleep(st[1] / 1000.))
            check(str(st)[:200])
            obs["steps"].append(entry)
            if obs["bad"]:
                break
        if not obs["bad"]:
            for n in rps:
                obs.setdefault("rps", {})[n] = ctx.describe(rps[n])
        else:
            obs["jobs"] = {n: ctx.describe(rp, False) for n, rp in rps.items()}
    for n in range(len(nodes)):
        if os.path.exists(ctx.path("out%d" % n)):
            with open(ctx.path("out%d" % n), "rb") as f:
                obs.setdefault("out", {})[n] = ctx.save(f.read())
    with open(ctx.path("stdout"), "rb") as f:
        obs["stdout"] = f.read().decode("latin-1")
    obs["running"] = len(env.running_pipelines)
    obs["cwd_changed"] = os.getcwd() != ctx.dir
    os.chdir(cwd)
    return obs
