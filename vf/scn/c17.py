"""What is listed as running, while pipelines start and end as told"""
import asyncio
import os

import pieshell
from pieshell import PIPE, Redirect
from .. import monitors
from ..monitors import M, REAL


def listing(ctx, nodes, parts, names, steps, interactive):
    loop = ctx.loop()
    cwd = os.getcwd()
    ctx.gates = {}
    ctx.gates_used = set()
    ctx.finished = set()
    envs = [ctx.env(interactive=interactive)]
    rps = {}            # pipeline -> RunningPipeline
    where = {}          # pipeline -> environment
    order = []          # as started
    last = {}           # environment -> pipeline
    released = set()
    killed = set()
    tasks = []
    obs = {"bad": [], "looks": 0, "groups": 0, "found": 0, "listed": 0, "running seen": 0, "failed seen": 0, "waited": []}

    def done(i):
        p = parts[i]
        return ((not p["gate"] or i in released) and all(done(d) for d in p["deps"])) or i in killed

    def failed(i):
        return i in killed or parts[i]["fails"]

    def partsof(n):
        return [i for i in parts if parts[i]["n"] == n]

    def ended(n):
        return all(done(i) for i in partsof(n))

    def index(rp):
        return [n for n in rps if rps[n] is rp] or ["?"]

    def pid(p):
        return ctx.part_id(p)

    def lists():
        """What is wrong even if nothing has been noticed yet"""
        res = []
        for e, env in enumerate(envs):
            got = [index(rp)[0] for rp in list(env.running_pipelines)]
            must = [n for n in order if where[n] == e and not ended(n)]
            if [n for n in got if n != "?" and where[n] == e and not ended(n)] != must:
                res.append("running_pipelines of environment %d are %s, but %s have not ended" % (e, got, must))
            if len(got) != len(set(got)) or any(n == "?" or where[n] != e for n in got):
                res.append("running_pipelines of environment %d are %s, but %s were run in it" % (
                    e, got, [n for n in order if where[n] == e]))
            lp = env.__dict__.get("last_pipeline")
            if (lp is not None) != (e in last) or (lp is not None and env.last_pipeline is not rps[last[e]]):
                res.append("last_pipeline of environment %d is %s, not %s" % (e, lp is not None and index(lp), last.get(e)))
        return res

    def found(rp, n):
        """Attributes of rp by name"""
        res = []
        byid = {pid(p): p for p in rp.processes}
        d = dir(rp)
        for name, ids in names[n].items():
            want = [byid.get(i) for i in ids]
            if name not in d:
                res.append("%s is not in dir()" % name)
            try:
                x = getattr(rp, name)
            except AttributeError:
                res.append("there is no %s" % name)
                continue
            leaves = []

            def walk(x, depth):
                for p in rp.processes:
                    if x is p:
                        leaves.append(x)
                        return
                if depth > 6:
                    res.append("%s does not end" % name)
                    return
                obs["groups"] += 1
                keys = dir(x)
                if len(keys) != len(set(keys)) or len(keys) < 1:
                    res.append("sub-levels of %s are %s" % (name, keys))
                for k in keys:
                    walk(getattr(x, k), depth + 1)
            if len(ids) == 1:
                if x is not want[0]:
                    res.append("%s is not the part called so, %s" % (name, ids))
            else:
                walk(x, 0)
                if sorted(map(id, leaves)) != sorted(map(id, want)):
                    res.append("%s leads to %s, not %s" % (name, [pid(p) for p in leaves], ids))
            obs["found"] += 1
        for name in ("vfnone", "v"):
            try:
                getattr(rp, name)
                res.append("there is a %s" % name)
            except AttributeError:
                pass
        return res

    def wrong():
        """What is wrong once everything has been noticed"""
        res = lists()
        for e, env in enumerate(envs):
            got = [index(rp)[0] for rp in list(env.running_pipelines)]
            want = [n for n in order if where[n] == e and not ended(n)]
            if got != want:
                res.append("running_pipelines of environment %d are %s, should be %s" % (e, got, want))
        for n, rp in rps.items():
            ids = [pid(p) for p in rp.processes]
            if sorted(map(str, ids)) != sorted(partsof(n)) or len({id(p) for p in rp.processes}) != len(ids):
                res.append("processes of %s are %s, should be %s" % (n, ids, partsof(n)))
                continue
            for p in rp.processes:
                i = pid(p)
                if bool(p.is_running) == done(i):
                    res.append("is_running of %s is %s" % (i, p.is_running))
                elif not p.is_running and bool(p.is_failed) != failed(i):
                    res.append("is_failed of %s is %s" % (i, p.is_failed))
            run = [pid(p) for p in rp.running_processes]
            fail = [pid(p) for p in rp.failed_processes]
            wantr = [i for i in ids if not done(i)]
            wantf = [i for i in ids if done(i) and failed(i)]
            if sorted(run) != sorted(wantr) or bool(rp.is_running) != bool(wantr):
                res.append("running_processes of %s are %s (is_running %s), should be %s" % (n, run, rp.is_running, wantr))
            if sorted(fail) != sorted(wantf) or bool(rp.is_failed) != bool(wantf):
                res.append("failed_processes of %s are %s (is_failed %s), should be %s" % (n, fail, rp.is_failed, wantf))
        return res

    def check(what):
        w = lists()
        if w:
            obs["bad"].append([what, w])
            return
        for i in range(160):
            w = wrong()
            if not w:
                break
            now = lists()
            if now:
                obs["bad"].append([what + ", then", now])
                return
            loop.run_until_complete(asyncio.sleep(0 if i < 10 else 0.001 * i))
        else:
            obs["bad"].append([what + ", in the end", w])
            return
        for n, rp in rps.items():
            w = found(rp, n)
            if w:
                obs["bad"].append([what, "pipeline %s: %s, processes %s" % (n, w, [pid(p) for p in rp.processes])])
                return
        obs["looks"] += 1
        obs["listed"] += sum(len(env.running_pipelines) for env in envs)
        obs["running seen"] += sum(len(rp.running_processes) for rp in rps.values())
        obs["failed seen"] += sum(len(rp.failed_processes) for rp in rps.values())

    def started(n, e, rp):
        rps[n] = rp
        where[n] = e
        order.append(n)
        last[e] = n

    async def read(it):
        try:
            async for x in it:
                pass
        except pieshell.PipelineError:
            pass

    async def wait(n, kind):
        rp = rps[n]
        exc = None
        try:
            if kind == "wait":
                await rp.wait()
            else:
                await rp
        except pieshell.PipelineError as x:
            exc = type(x).__name__
        monitors.returned_in_child("wait")
        obs["waited"].append([n, exc, rp in list(envs[where[n]].running_pipelines)])

    def step(s):
        k = s[0]
        if k == "start":
            _, n, e, how = s[:4]
            env = envs[e]
            p = ctx.build(nodes[n], env)
            if how in ("run", "~", "&", "pipe"):
                rp = (p.run() if how == "run" else ~p if how == "~" else p & True if how == "&" else
                      p.run([Redirect("stdout", PIPE)]))
                started(n, e, rp)
                if how == "pipe":
                    tasks.append(loop.create_task(read(rp)))
            elif how == "aiter":
                it = p.__aiter__()
                started(n, e, env.last_pipeline)
                tasks.append(loop.create_task(read(it)))
            elif how in ("+", "ri", "list", "bytes", "prompt"):
                # Until it has ended
                rp = None
                try:
                    if how == "+":
                        rp = +p
                    elif how == "ri":
                        rp = p.run_interactive()
                    elif how == "list":
                        list(p)
                    elif how == "bytes":
                        bytes(p)
                    else:
                        pieshell.pipeline.base.standard_repr(p)
                except pieshell.PipelineError as x:
                    rp = x.pipeline
                monitors.returned_in_child(how)
                started(n, e, rp if rp is not None else env.last_pipeline)
                if rps[n] in list(env.running_pipelines):
                    obs["bad"].append([str(s), "has been waited for, and is in running_pipelines"])
        elif k == "derive":
            envs.append(envs[s[1]]())
        elif k == "builtin":
            env = envs[s[1]]
            p = {"cd": lambda: env.cd("."), "clear": lambda: env.clear_dir_cache, "bg": lambda: env.bg,
                 "bgarg": lambda: env.bg(rps[s[3]])}[s[2]]()
            if s[4] == "+":
                +p
            elif s[4] == "run":
                p.run()
            else:
                pieshell.pipeline.base.standard_repr(p) if interactive else +p
        elif k == "go":
            for i in s[1]:
                released.add(i)
                if i in ctx.gates:
                    ctx.gates[i].set()
                else:
                    with open(ctx.path("go_" + i), "w"):
                        pass
        elif k == "kill":
            for p in rps[parts[s[1]]["n"]].processes:
                if pid(p) == s[1] and M.children.get(p.pid) == "live" and p.pid in M.forked:
                    killed.add(s[1])
                    REAL["kill"](p.pid, 9)
        elif k == "wait":
            tasks.append(loop.create_task(wait(s[1], s[2])))
        elif k == "yield":
            async def ticks():
                for i in range(s[1]):
                    await asyncio.sleep(0)
            loop.run_until_complete(ticks())

    with ctx.stdio(True, None):
        for s in steps:
            os.write(2, ("step %s\n" % str(s)[:100]).encode())
            step(s)
            if s[-1] == "quick":
                w = lists()
                if w:
                    obs["bad"].append([str(s), w])
            else:
                check(str(s)[:150])
            if obs["bad"]:
                break
        for i in parts:     # Whatever is left
            if i in ctx.gates:
                ctx.gates[i].set()
            else:
                with open(ctx.path("go_" + i), "w"):
                    pass
        if not obs["bad"]:
            released.update(parts)
            check("the end")
            if tasks:
                loop.run_until_complete(asyncio.wait(tasks, timeout=4))
            obs["unended"] = sum(not t.done() for t in tasks)
        for t in tasks:
            if not t.done():
                t.cancel()
        loop.run_until_complete(asyncio.sleep(0.001))
    os.chdir(cwd)
    return obs


def twins(ctx, node, names, fails):
    """Parts of which some are the very same command"""
    loop = ctx.loop()
    env = ctx.env()
    obs = {"bad": [], "found": 0, "groups": 0, "leaves": 0}
    with ctx.stdio(True, None):
        rp = ctx.build(node, env).run()
        procs = list(rp.processes)

        def look(what):
            if [id(p) for p in rp.processes] != [id(p) for p in procs] or len({id(p) for p in procs}) != len(procs):
                obs["bad"].append([what, "processes are others"])
            if len(procs) != sum(names.values()):
                obs["bad"].append([what, "%d processes, should be %d" % (len(procs), sum(names.values()))])
            pids = [p.pid for p in procs if isinstance(p, pieshell.RunningProcess)]
            if len(set(pids)) != len(pids):
                obs["bad"].append([what, "pids are %s" % pids])
            for name, count in names.items():
                leaves = []

                def walk(x, depth):
                    if any(x is p for p in procs):
                        leaves.append(id(x))
                        return
                    if depth > 8:
                        leaves.append("deep")
                        return
                    obs["groups"] += 1
                    for k in dir(x):
                        walk(getattr(x, k), depth + 1)
                try:
                    walk(getattr(rp, name), 0)
                except AttributeError as e:
                    obs["bad"].append([what, "no %s: %s" % (name, e)])
                    continue
                if len(leaves) != count or len(set(leaves)) != count:
                    obs["bad"].append([what, "%s leads to %d parts, %d of them different, should be %d" % (name, len(leaves), len(set(leaves)), count)])
                obs["found"] += 1
                obs["leaves"] += len(leaves)
        look("when started")
        if len(rp.running_processes) != len(procs):
            obs["bad"].append(["when started", "%d running_processes" % len(rp.running_processes)])
        with open(ctx.path("go"), "w"):
            pass
        try:
            loop.run_until_complete(rp.wait())
        except pieshell.PipelineFailed:
            pass
        look("at the end")
        obs["end"] = [len(rp.running_processes), len(rp.failed_processes), sum(p.is_failed for p in procs)]
        del procs
    obs["fails"] = fails
    return obs
