"""Signals sent, and CTRL-C"""
import asyncio
import os
import signal
import time

import pieshell
from .. import monitors
from ..monitors import M, REAL
from .c15 import execed


class Interrupts(object):
    """CTRL-C, while the shell waits for something to happen"""
    def __init__(self, loop):
        self.loop = loop
        self.selector = loop._selector
        self.orig = self.selector.select
        self.arm = None
        self.busy = 0
        self.sent = 0
        self.sig = signal.SIGINT
        self.selector.select = self.select

    def select(self, timeout=None):
        if self.arm is None or monitors.MAIN != REAL["getpid"]():
            return self.orig(timeout)
        events = self.orig(0.004 if timeout is None else min(timeout, 0.004))
        self.busy += 1
        if self.arm is None or ((events or (timeout is not None and timeout <= 0)) and self.busy < 300):
            return events
        # It blocks, or is busy waiting for something to be read
        self.arm -= 1
        if self.arm < 0 and execed():
            self.busy = 0
            self.arm = None
            self.sent += 1
            REAL["kill"](REAL["getpid"](), self.sig)
            for i in range(20000):      # Until the interpreter looks for signals
                if self.sig != signal.SIGINT:
                    break
        return events

    def stop(self):
        self.selector.select = self.orig


def signals(ctx, nodes, steps, interactive):
    loop = ctx.loop()
    cwd = os.getcwd()
    env = ctx.env = ctx.env(interactive=interactive)
    obs = {"steps": [], "bad": [], "kills": 0, "kills_ended": 0, "states": 0}
    rps = {}
    owner = {}
    stopped = set()
    done = set()
    waited = set()      # A wait was interrupted, of the user's own, and still goes on
    cur = [None]
    seen = [0]
    undo = []

    def forked(pid):
        owner[pid] = cur[0]
    M.on_fork.append(forked)
    ints = Interrupts(loop)
    ps = {n: ctx.build(node) for n, node in enumerate(nodes)}

    def pids(n):
        return [p.pid for p in rps[n].processes if isinstance(p, pieshell.RunningProcess)]

    def live(n, zombies=False):
        """Processes not waited for yet"""
        return [p for p, o in owner.items() if o == n and M.children.get(p) == "live" and (zombies or monitors.state(p) not in (None, "Z"))]

    def check(st, allowed):
        """allowed: {pipeline: signals}"""
        for pid, sig, state in M.kills[seen[0]:]:
            n = owner.get(pid)
            obs["kills"] += 1
            if state != "live":
                obs["bad"].append([st, "signal %s sent to process %s, that is %s" % (sig, pid, {"dead": "gone and waited for"}.get(state, "not a child"))])
            elif (n not in allowed or sig not in allowed[n]) and not (n in waited and sig == signal.SIGSTOP):
                obs["bad"].append([st, "signal %s sent to a process of pipeline %s" % (sig, n)])
        seen[0] = len(M.kills)

    def must(st, n, sig, before, since):
        """Every process of n still running got the signal"""
        got = {pid for pid, s, state in M.kills[since:] if s == sig}
        for pid in before:
            if pid not in got:
                obs["bad"].append([st, "process of pipeline %s running, but not sent signal %s" % (n, sig)])

    def settle(st):
        def wrong():
            res = []
            for n in rps:
                if n in done or not pids(n):
                    continue
                for pid in live(n):
                    s = monitors.state(pid)
                    if s is not None and s != "Z" and (s in "Tt") != (n in stopped):
                        res.append("process of pipeline %s is in state %s" % (n, s))
            return res
        for i in range(300):
            w = wrong()
            if not w:
                break
            loop.run_until_complete(asyncio.sleep(0.001 * i))
            if i > 90:
                break
        if w:
            obs["bad"].append([st, w])
        obs["states"] += 1

    def find(e, n):
        """Whose pipeline an exception is about"""
        rp = getattr(e, "pipeline", None)
        if rp is None:
            return None
        mine = {owner.get(p.pid) for p in rp.processes if isinstance(p, pieshell.RunningProcess)}
        return mine == {n}

    def exited(pid):
        return monitors.state(pid) in (None, "Z")

    with ctx.stdio(True):
        for st in steps:
            k, n = st[0], st[1]
            entry = {}
            os.write(2, ("step %s\n" % str(st)[:100]).encode())
            cur[0] = n
            allowed = {}
            since = len(M.kills)
            try:
                if k == "start":
                    rps[n] = ps[n].run() if st[2] else ~ps[n]
                elif k in ("fgint", "waitint", "fgargint"):
                    # Waited for, until CTRL-C
                    ints.arm = st[3]
                    ints.sig = signal.SIGINT
                    sent = ints.sent
                    try:
                        if k == "waitint":
                            loop.run_until_complete(rps[n].wait())
                        elif k == "fgargint":
                            +env.fg(rps[n])
                        elif st[2] == "+":
                            rps[n] = +ps[n]
                        elif st[2] == "ri":
                            rps[n] = ps[n].run_interactive()
                        elif st[2] == "prompt":
                            entry["repr"] = pieshell.pipeline.base.standard_repr(ps[n])
                        elif st[2] == "iter":
                            entry["lines"] = sum(1 for l in ps[n])
                        elif st[2] == "bytes":
                            bytes(ps[n])
                    except (KeyboardInterrupt, pieshell.PipelineError) as e:
                        monitors.returned_in_child("interrupted")
                        entry["exc"] = type(e).__name__
                        if isinstance(e, pieshell.PipelineError):
                            entry["both"] = isinstance(e, pieshell.PipelineInterrupted) and isinstance(e, KeyboardInterrupt)
                            if k == "fgargint":
                                entry["mine"] = True
                            else:
                                entry["mine"] = find(e, n)
                            try:
                                entry["str"] = str(e)[:300]
                            except Exception as e2:
                                entry["strfail"] = repr(e2)[:300]
                            if n not in rps and e.pipeline is not None:
                                rps[n] = e.pipeline
                    except Exception as e:
                        monitors.returned_in_child("exception")
                        entry["exc"] = type(e).__name__
                        entry["tb"] = repr(e)[:300]
                    ints.arm = None
                    entry["sent"] = ints.sent - sent
                    if n not in rps:
                        rps[n] = env.running_pipelines[-1]
                    if k != "fgint":
                        waited.add(n)
                    entry["listed"] = rps[n] in env.running_pipelines
                    entry["running"] = rps[n].is_running
                    entry["alive"] = len(live(n))
                    allowed = {n: [signal.SIGCONT]}
                    stopped.discard(n)
                elif k == "ctrlz":
                    ints.arm = st[3]
                    ints.sig = signal.SIGTSTP
                    sent = ints.sent
                    try:
                        if st[2] == "wait":
                            loop.run_until_complete(rps[n].wait())
                        else:
                            rps[n] = +ps[n]
                    except pieshell.PipelineError as e:
                        entry["exc"] = type(e).__name__
                        entry["mine"] = find(e, n)
                        rps[n] = e.pipeline
                    ints.arm = None
                    entry["sent"] = ints.sent - sent
                    must(st, n, signal.SIGSTOP, live(n), since)
                    stopped.add(n)
                    allowed = {n: [signal.SIGCONT, signal.SIGSTOP]}
                elif k in ("suspend", "restart"):
                    while k == "suspend" and not execed():
                        loop.run_until_complete(asyncio.sleep(0.002))
                    before = live(n)
                    obs["kills_ended"] += len(pids(n)) - len(before)
                    sig = signal.SIGSTOP if k == "suspend" else signal.SIGCONT
                    if k == "suspend":
                        rps[n].suspend()
                        stopped.add(n)
                    elif st[2] == "bg":
                        +env.bg(rps[n])
                        stopped.discard(n)
                    else:
                        rps[n].restart()
                        stopped.discard(n)
                    must(st, n, sig, [p for p in before if not exited(p)], since)
                    allowed = {n: [sig]}
                elif k == "go":
                    for i in st[2]:
                        with open(ctx.path("go_" + i), "w"):
                            pass
                elif k == "ended":
                    # The processes of these parts have ended, and the shell
                    # has not noticed
                    t0 = time.time()
                    while any(not exited(pid) for pid in live(n) if any(("nop:" + i) in cmdline(pid) for i in st[2])):
                        time.sleep(0.001)
                        if time.time() - t0 > st[3] / 1000.:
                            break
                elif k == "die":
                    targets = [pid for pid in live(n)]
                    if targets:
                        REAL["kill"](targets[st[2] % len(targets)], st[3])
                elif k == "atend":
                    # As soon as a process has ended
                    def end(future, rp=rps[n]):
                        monitors.returned_in_child("end")
                        try:
                            rp.suspend()
                            rp.restart()
                        except Exception as e:
                            obs["bad"].append([str(st), repr(e)[:300]])
                    for proc in rps[n].processes:
                        if isinstance(proc, pieshell.RunningProcess) and proc.is_running:
                            proc.iohandler.done_future.add_done_callback(end)
                            undo.append(n)
                elif k == "spin":
                    for i in range(st[2]):
                        loop.run_until_complete(asyncio.sleep(0))
                elif k == "sleep":
                    loop.run_until_complete(asyncio.sleep(st[2] / 1000.))
                elif k == "wait":
                    try:
                        loop.run_until_complete(rps[n].wait())
                    except pieshell.PipelineFailed as e:
                        entry["exc"] = type(e).__name__
                        entry["mine"] = find(e, n)
                    entry["running"] = rps[n].is_running
                    entry["listed"] = rps[n] in env.running_pipelines
                    done.add(n)
                    stopped.discard(n)
                    allowed = {n: [signal.SIGCONT]}
                else:
                    raise ValueError(k)
            except KeyboardInterrupt as e:
                obs["bad"].append([str(st), "CTRL-C raised %r" % e])
            cur[0] = None
            for m in undo:
                allowed = dict(allowed)
                allowed[m] = [signal.SIGCONT, signal.SIGSTOP]
            check(str(st)[:150], allowed)
            if not (k in ("ended", "go", "die", "atend") or (len(st) > 4 and st[-1] == "now")):
                if not undo:
                    settle(str(st)[:150])
                allowed = {m: [signal.SIGCONT, signal.SIGSTOP] for m in undo}
                check(str(st)[:150] + ", then", allowed)
            obs["steps"].append(entry)
            if obs["bad"]:
                break
        ints.stop()
        loop.run_until_complete(asyncio.sleep(0.002))
        check("the end", {m: [signal.SIGCONT, signal.SIGSTOP] for m in undo})
        if not obs["bad"]:
            obs["rps"] = {n: ctx.describe(rps[n]) for n in rps}
        else:
            for pid in [p for p, s in M.children.items() if s == "live"]:
                REAL["kill"](pid, signal.SIGKILL)
    M.on_fork.remove(forked)
    for n in range(len(nodes)):
        if os.path.exists(ctx.path("out%d" % n)):
            with open(ctx.path("out%d" % n), "rb") as f:
                obs.setdefault("out", {})[n] = ctx.save(f.read())
    obs["running"] = len(env.running_pipelines)
    obs["sent"] = ints.sent
    os.chdir(cwd)
    return obs


def cmdline(pid):
    try:
        with open("/proc/%d/cmdline" % pid) as f:
            return f.read()
    except OSError:
        return ""
