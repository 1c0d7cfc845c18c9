"""The process state commands are started with"""
import json
import os
import resource
import signal
import subprocess

import pieshell
from . import common
from ..monitors import REAL

LIMITS = ["CPU", "FSIZE", "DATA", "STACK", "CORE", "NOFILE", "NPROC", "MEMLOCK", "AS"]


def limits():
    return {n: list(resource.getrlimit(getattr(resource, "RLIMIT_" + n))) for n in LIMITS}


def current():
    """The state of this process"""
    um = os.umask(0)
    os.umask(um)
    return dict(limits(), umask=um, pgid=os.getpgid(0), sid=os.getsid(0), nice=os.getpriority(os.PRIO_PROCESS, 0),
                blk=sorted(int(s) for s in signal.pthread_sigmask(signal.SIG_BLOCK, []) if s < 32),
                ign=[s for s in range(1, 32) if signal.getsignal(s) == signal.SIG_IGN],
                handled=[s for s in range(1, 32) if callable(signal.getsignal(s))])


def descendants(pid):
    parents = {}
    for n in os.listdir("/proc"):
        if n.isdigit():
            try:
                with open("/proc/%s/stat" % n) as f:
                    parents[int(n)] = int(f.read().rpartition(")")[2].split()[1])
            except (OSError, ValueError):
                pass
    res = [pid]
    for p in res:
        res += [c for c, pp in parents.items() if pp == p]
    return res


def dumps(path):
    res = {}
    for n in sorted(os.listdir(path)):
        if n.startswith("dump_") and not n.endswith(".tmp"):
            with open(os.path.join(path, n)) as f:
                d = json.load(f)
            res[n[5:]] = dict(d["state"], umask=d["umask"], pid=d["pid"], ppid=d["ppid"])
    return res


def state(ctx, node, mode, umask, ignore, handle, block, lims, before=(), stdin=None):
    obs = {"pid": os.getpid(), "before": []}
    loop = ctx.loop()
    old = {}
    oldlims = {n: resource.getrlimit(getattr(resource, "RLIMIT_" + n)) for n in lims}
    oldmask = signal.pthread_sigmask(signal.SIG_BLOCK, [])
    oldum = os.umask(umask)
    try:
        for s in ignore:
            old[s] = signal.signal(s, signal.SIG_IGN)
        for s in handle:
            old[s] = signal.signal(s, lambda *args: None)
        signal.pthread_sigmask(signal.SIG_BLOCK, block)
        for n, v in lims.items():
            resource.setrlimit(getattr(resource, "RLIMIT_" + n), (v, oldlims[n][1]))
        obs["shell"] = current()
        for what in before:
            # What it had to do before
            if what == "stop":
                p = ctx.env.vh("nop:X", "sl:20").run()
                p.suspend()
                p.restart()
                loop.run_until_complete(p.wait())
            elif what == "fail":
                try:
                    +ctx.env.vh("nop:X", "k:9")
                except pieshell.PipelineFailed:
                    pass
            elif what == "nostart":
                try:
                    +getattr(ctx.env, "vf-no-such-program")("nop:X")
                except pieshell.PipelineFailed:
                    pass
            elif what == "run":
                +(ctx.env.vh("nop:X", "w:61") | ctx.env.vh("nop:Y", "drain"))
            elif what == "background":
                ctx.env.vh("nop:X", "sl:100").run()
        o = common.pl(ctx, node, mode, stdin)
        obs["shell after"] = current()
    finally:
        os.umask(oldum)
        for n, v in oldlims.items():
            resource.setrlimit(getattr(resource, "RLIMIT_" + n), v)
        signal.pthread_sigmask(signal.SIG_SETMASK, oldmask)
        for s, h in old.items():
            signal.signal(s, h)
    for rp in list(ctx.env.running_pipelines):
        try:
            loop.run_until_complete(rp.wait())
        except pieshell.PipelineFailed:
            pass
    obs["dumps"] = dumps(ctx.dir)
    obs.update(o)
    return obs


def started(ctx, script, args, umask, ignore, block, lims, session, nice):
    """pieshell, and a program, started with the same state"""
    ctx.loop()

    def pre():
        os.umask(umask)
        if session == "sid":
            os.setsid()
        elif session == "pgid":
            os.setpgid(0, 0)
        if nice:
            os.nice(nice)
        for s in range(1, 32):
            if s not in (signal.SIGKILL, signal.SIGSTOP):
                signal.signal(s, signal.SIG_IGN if s in ignore else signal.SIG_DFL)
        for n, v in lims.items():
            resource.setrlimit(getattr(resource, "RLIMIT_" + n), (v, resource.getrlimit(getattr(resource, "RLIMIT_" + n))[1]))
        signal.pthread_sigmask(signal.SIG_SETMASK, block)

    obs = {}
    home = ctx.path("home")
    os.mkdir(home)
    with open(ctx.path("script.pysh"), "w") as f:
        f.write(script.replace("@D", ctx.dir))
    env = dict(os.environ, HOME=home, TERM="dumb", D=ctx.dir)
    subprocess.run(["vh", "dump:" + ctx.path("dump_ref")], preexec_fn=pre, restore_signals=False, env=env, cwd=ctx.dir, timeout=20)
    with open(ctx.path("cliout"), "wb") as o, open(ctx.path("clierr"), "wb") as e:
        p = subprocess.Popen([os.environ["VF_PYTHON"], "-c", "import pieshell.shell; pieshell.shell.main()", "--no-startup"] + [a.replace("@D", ctx.dir) for a in args], stdin=subprocess.DEVNULL, stdout=o, stderr=e,
                             preexec_fn=pre, restore_signals=False, env=env, cwd=ctx.dir)
        obs["pid"] = p.pid
        try:
            obs["code"] = p.wait(timeout=30)
        except subprocess.TimeoutExpired:
            obs["code"] = "timeout"
            # And what it started
            for pid in descendants(p.pid):
                try:
                    REAL["kill"](pid, signal.SIGKILL)
                except OSError:
                    pass
            p.wait()
    with open(ctx.path("clierr"), "rb") as f:
        obs["err"] = f.read().decode("utf-8", "replace")[-3000:]
    with open(ctx.path("cliout"), "rb") as f:
        obs["out"] = f.read().decode("utf-8", "replace")
    obs["dumps"] = dumps(ctx.dir)
    return obs
