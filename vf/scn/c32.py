"""The scenarios of other properties with logging turned on"""
import asyncio
import fcntl
import importlib
import logging
import os
import signal
import subprocess
import sys
import time

import pieshell
from pieshell import log, environ
from .. import monitors
from ..monitors import REAL


class Logging(object):
    def __init__(self, ctx, on, dest):
        self.ctx = ctx
        self.on = on
        self.dest = dest

    def __enter__(self):
        self.save = REAL["dup"](log.logfd) if "dup" in REAL else os.dup(log.logfd)
        if self.dest == "gone":
            r, w = os.pipe()
            os.close(r)
        else:
            w = os.open(self.ctx.path("thelog"), os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
        os.dup2(w, log.logfd, inheritable=False)
        os.close(w)
        fcntl.fcntl(self.save, fcntl.F_SETFD, fcntl.FD_CLOEXEC)
        self.levels = {}
        for name in self.on:
            self.levels[name] = logging.getLogger(name).level
            logging.getLogger(name).setLevel(logging.INFO)
        self.stderr = sys.stderr
        if self.dest == "gone":
            sys.stderr = open("/dev/null", "w") # logging complains there
        return self

    def __exit__(self, *exc):
        for name, level in self.levels.items():
            logging.getLogger(name).setLevel(level)
        os.dup2(self.save, log.logfd, inheritable=False)
        os.close(self.save)
        if sys.stderr is not self.stderr:
            sys.stderr.close()
            sys.stderr = self.stderr

    def content(self):
        if self.dest == "gone":
            return None
        with open(self.ctx.path("thelog"), "rb") as f:
            return self.ctx.save(f.read(), "logged")


def logged(ctx, of, scn, p, on, dest):
    mod = importlib.import_module("vf.scn." + of)
    n = len(monitors.M.forked)
    with Logging(ctx, on, dest) as l:
        obs = getattr(mod, scn)(ctx, **p)
    return {"inner": obs, "log": l.content(), "forked": list(monitors.M.forked[n:]), "main": REAL["getpid"]()}


def odd(ctx, name, args, on, dest, cancel, backslash):
    """Names of all kinds, in messages"""
    loop = ctx.loop()
    name = os.fsdecode(bytes.fromhex(name))
    d = os.path.join(ctx.dir, name)
    os.mkdir(d)
    env = ctx.env(cwd=d, interactive=False)
    args = [os.fsdecode(bytes.fromhex(a)) for a in args]
    got = []

    async def fn(stdin):
        async for line in stdin:
            got.append(line)
            yield line
    n = len(monitors.M.forked)
    res = {}
    with ctx.stdio(True, b""):
        with Logging(ctx, on, dest) as l:
            res["shown"] = [x.encode("utf-8", "surrogateescape").hex() for x in (env.vh("show", *[environ.R(a) for a in args]) | fn | env.vh("cat"))]
            # Relative to where the shell is
            +(env.vh("e:" + b"err".hex(), "show", *[environ.R(a) for a in args]) | pieshell.Redirect("stdout", name) | pieshell.Redirect("stderr", pieshell.STRING))
            try:
                +env.vh("x:3")
                res["failed"] = None
            except pieshell.PipelineFailed as e:
                res["failed"] = [x.exit_code for x in e.pipeline.failed_processes]
            if cancel:
                env._interactive = True
                p = env.vh("wait:" + ctx.path("go"))

                def stop():
                    REAL["kill"](REAL["getpid"](), signal.SIGINT)
                timer = loop.call_later(0.1, stop)
                try:
                    res["repr"] = pieshell.pipeline.base.standard_repr(p)
                except BaseException as e:
                    res["repr"] = "%s: %s" % (type(e).__name__, e)
                env._interactive = False
                with open(ctx.path("go"), "w"):
                    pass
                for rp in list(env.running_pipelines):
                    loop.run_until_complete(rp.wait())
        with open(os.path.join(d, name), "rb") as f:
            res["file"] = f.read().hex()
        res["got"] = [x.encode("utf-8", "surrogateescape").hex() for x in got]
    return {"odd": res, "log": l.content(), "forked": list(monitors.M.forked[n:]), "main": REAL["getpid"]()}


def line(ctx, on, cmds, where):
    """pieshell --log=..., as started by others"""
    ctx.loop()
    with open(ctx.path("in.pysh"), "w") as f:
        f.write("".join("+" + c + "\n" for c in cmds))
    e = dict(os.environ, TERM="xterm")
    argv = ["pieshell", "--no-startup", "--log=" + ",".join(on), ctx.path("in.pysh")] if on else ["pieshell", "--no-startup", ctx.path("in.pysh")]
    with open(ctx.path("out"), "wb") as o, open(ctx.path("err"), "wb") as x:
        if where == "gone":
            r, w = os.pipe()
            os.close(r)
        try:
            p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=w if where == "gone" else o, stderr=x, cwd=ctx.dir, env=e, timeout=40)
            code = p.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
        if where == "gone":
            os.close(w)
    with open(ctx.path("out"), "rb") as f:
        out = f.read()
    with open(ctx.path("err"), "rb") as f:
        err = f.read().decode("utf-8", "replace")[-3000:]
    try:
        with open(ctx.path("made"), "rb") as f:
            made = f.read().decode()
    except FileNotFoundError:
        made = None
    return {"code": code, "out": out.hex(), "err": err, "made": made}
