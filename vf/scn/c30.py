"""Processes of the user's own, beside those of pipelines"""
import asyncio
import multiprocessing
import os
import signal
import subprocess
import time

import pieshell
from . import common
from .. import monitors
from ..monitors import M, REAL


def gate(path, code, sig):
    """What a child of a fork does"""
    # It has the ends of the pipes of pipelines that are running
    os.closerange(3, 256)
    while not os.path.exists(path):
        time.sleep(0.002)
    if sig:
        signal.signal(sig, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_UNBLOCK, [sig])
        REAL["kill"](REAL["getpid"](), sig)
    REAL["_exit"](code)


def target(path, code):
    os.closerange(3, 256)
    while not os.path.exists(path):
        time.sleep(0.002)
    raise SystemExit(code)


class Own(object):
    """A process started without pieshell"""

    def __init__(self, ctx, id, kind, code, sig, out):
        self.ctx, self.id, self.kind, self.code, self.sig = ctx, id, kind, code, sig
        self.go = ctx.path("go_" + id)
        self.args = ["vh", "pid:" + ctx.path("pid_" + id), "wait:" + self.go] + (["w:" + out.encode().hex()] if out else []) + (
            ["k:%d" % sig] if sig else ["x:%d" % code])
        self.status = self.output = None

    async def start(self):
        k = self.kind
        if k == "popen":
            self.p = subprocess.Popen(self.args, stdout=subprocess.PIPE)
            self.pid = self.p.pid
        elif k == "fork":
            self.pid = REAL["fork"]()
            if self.pid == 0:
                gate(self.go, self.code, self.sig)
        elif k == "ospopen":
            self.p = os.popen(" ".join(self.args))
            self.pid = None
        elif k == "asyncio":
            self.p = await asyncio.create_subprocess_exec(*self.args, stdout=subprocess.PIPE)
            self.pid = self.p.pid
        elif k == "multi":
            self.p = multiprocessing.get_context("fork").Process(target=target, args=(self.go, self.code))
            self.p.start()
            self.pid = self.p.pid

    def end(self):
        with open(self.go, "w"):
            pass

    def state(self):
        return monitors.state(self.pid) if self.pid else None

    async def wait(self, how):
        k = self.kind
        if k == "popen":
            if how == "poll":
                while self.p.poll() is None:
                    await asyncio.sleep(0.002)
                self.status = self.p.returncode
                self.output = self.p.stdout.read()
                self.p.stdout.close()
            else:
                self.output = self.p.communicate()[0]
                self.status = self.p.returncode
        elif k == "fork":
            while True:
                pid, status = REAL["waitpid"](self.pid, os.WNOHANG if how == "poll" else 0)
                if pid:
                    break
                await asyncio.sleep(0.002)
            self.status = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
        elif k == "ospopen":
            self.output = self.p.read().encode()
            r = self.p.close()
            self.status = 0 if r is None else r >> 8
        elif k == "asyncio":
            self.output = (await asyncio.wait_for(self.p.communicate(), 20))[0]
            self.status = self.p.returncode
        elif k == "multi":
            if how == "poll":
                while self.p.exitcode is None:
                    await asyncio.sleep(0.002)
            else:
                self.p.join()
            self.status = self.p.exitcode
            self.p.close()


def own(ctx, procs, steps, top):
    """steps: what is done one after the other: processes started, ended
    and waited for, pipelines run"""
    loop = ctx.loop()
    obs = {"own": {}, "pipes": [], "errors": [], "signalled": []}
    all = {id: Own(ctx, id, **p) for id, p in procs.items()}
    running = {}

    async def do(s):
        op = s[0]
        if op == "start":
            await all[s[1]].start()
        elif op == "end":
            all[s[1]].end()
        elif op == "wait":
            p = all[s[1]]
            try:
                await p.wait(s[2])
                obs["own"][p.id] = [p.status, None if p.output is None else p.output.decode()]
            except Exception as e:
                obs["errors"].append("%s of %s: %s: %s" % (s[2], s[1], type(e).__name__, e))
        elif op == "dead":
            # Until it is there to be waited for
            p = all[s[1]]
            for i in range(2000):
                if p.pid is None or p.state() in ("Z", None):
                    break
                await asyncio.sleep(0.002)
        elif op == "sleep":
            await asyncio.sleep(s[1] / 1000.)
        elif op == "run":
            running[s[1]] = ctx.build(s[2]).run()
        elif op == "await":
            rp = running[s[1]]
            try:
                await rp.wait()
            except pieshell.PipelineFailed:
                pass
            obs["pipes"].append([s[1], [[x["id"], x.get("code")] for x in ctx.describe(rp, False)["parts"]]])
        elif op == "stop":
            running[s[1]].suspend()
            await asyncio.sleep(0.005)
            running[s[1]].restart()
        elif op == "stopown":
            p = all[s[1]]
            REAL["kill"](p.pid, signal.SIGSTOP)
            pid, status = REAL["waitpid"](p.pid, os.WUNTRACED)
            await asyncio.sleep(0.005)
            REAL["kill"](p.pid, signal.SIGCONT)
            obs.setdefault("stopped", []).append([s[1], os.WIFSTOPPED(status)])

    def sync(s):
        op = s[0]
        if op == "fg":
            rp = None
            try:
                r = +ctx.build(s[2])
            except pieshell.PipelineFailed as e:
                r = e.pipeline
            obs["pipes"].append([s[1], [[x["id"], x.get("code")] for x in ctx.describe(r, False)["parts"]]])
        elif op == "iter":
            try:
                n = len(list(ctx.build(s[2])))
            except pieshell.PipelineFailed as e:
                n = -1
            obs["pipes"].append([s[1], n])
        elif op == "subprocess":
            r = subprocess.run(["vh", "x:%d" % s[1]])
            obs["own"]["run%d" % s[2]] = [r.returncode, None]
        elif op == "system":
            r = os.system("vh x:%d" % s[1])
            obs["own"]["run%d" % s[2]] = [os.WEXITSTATUS(r), None]

    with ctx.stdio(True, b""):
        if top == "task":
            async def main():
                for s in steps:
                    if s[0] in ("fg", "iter"):
                        await do(["run", s[1], s[2]])
                        await do(["await", s[1]])
                    elif s[0] in ("subprocess", "system"):
                        sync(s)
                    else:
                        await do(s)
            loop.run_until_complete(main())
        else:
            for s in steps:
                if s[0] in ("fg", "iter", "subprocess", "system"):
                    sync(s)
                else:
                    loop.run_until_complete(do(s))
    obs["listed"] = len(ctx.env.running_pipelines)
    return obs
