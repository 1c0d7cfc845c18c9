"""What descriptors commands are started with"""
import asyncio
import fcntl
import json
import os
import resource
import socket

import pieshell
from . import common
from .. import monitors
from ..monitors import REAL


def st(fd):
    s = os.fstat(fd)
    return {"dev": s.st_dev, "ino": s.st_ino}


def fds(ctx, node, mode, opens, extra, soft=None, log=False):
    ctx.fds = {}
    mine = []
    obs = {"opens": {}, "extra": []}
    old = resource.getrlimit(resource.RLIMIT_NOFILE)
    if soft:
        resource.setrlimit(resource.RLIMIT_NOFILE, (soft, old[1]))
    busy = monitors.fd_table()

    def place(fd, at):
        """fd, at the number wanted if nothing is there"""
        if at is not None and at != fd and at not in busy and at not in mine:
            os.dup2(fd, at, inheritable=False)
            REAL["close"](fd)
            fd = at
        mine.append(fd)
        return fd
    try:
        for name, o in opens.items():
            fd = place(os.open(ctx.path(o["path"]), o["flags"] | os.O_CREAT, 0o666), o.get("at"))
            ctx.fds[name] = fd
            os.set_inheritable(fd, bool(o.get("inh")))
            obs["opens"][name] = dict(st(fd), fd=fd, fl=fcntl.fcntl(fd, fcntl.F_GETFL))
        keep = []
        for o in extra:
            if o["kind"] == "file":
                new = [os.open(ctx.path("extra%d" % len(mine)), os.O_RDWR | os.O_CREAT)]
            elif o["kind"] == "pipe":
                new = list(REAL["pipe"]())
            elif o["kind"] == "dir":
                new = [os.open(ctx.dir, os.O_RDONLY)]
            else:
                a, b = socket.socketpair()
                new = [a.detach(), b.detach()]
            for fd in new:
                fd = place(fd, o.get("at"))
                os.set_inheritable(fd, bool(o.get("inh")))
                obs["extra"].append(fd)
        if log:
            import logging
            for n in ("fd", "cmd", "ioreg", "signal"):
                logging.getLogger(n).setLevel(logging.INFO)
        obs["shellfds"] = len(monitors.fd_table())
        with ctx.stdio(True, b"line\n" * 3):
            obs["shell"] = [st(0), st(1)]
        o = common.pl(ctx, node, mode, stdin=(b"line\n" * 3).hex())
        # The files pl makes are others
        obs["shell"] = [dict(zip(("dev", "ino"), x)) for x in
                        [[os.stat(ctx.path("stdin")).st_dev, os.stat(ctx.path("stdin")).st_ino],
                         [os.stat(ctx.path("stdout")).st_dev, os.stat(ctx.path("stdout")).st_ino]]]
        obs["exc"] = o.get("exc")
        obs["rp"] = o.get("rp")
    finally:
        if log:
            for n in ("fd", "cmd", "ioreg", "signal"):
                logging.getLogger(n).setLevel(logging.CRITICAL)
        for fd in mine:
            try:
                REAL["close"](fd)
            except OSError:
                obs.setdefault("closed", []).append(fd)
        if soft:
            resource.setrlimit(resource.RLIMIT_NOFILE, old)
    obs["dumps"] = {}
    obs["files"] = {}
    for n in os.listdir(ctx.dir):
        if n.startswith("dump_"):
            with open(ctx.path(n)) as f:
                obs["dumps"][n[5:]] = json.load(f)["fds"]
        else:
            s = os.stat(ctx.path(n))
            obs["files"][n] = {"dev": s.st_dev, "ino": s.st_ino}
    s = os.stat("/dev/null")
    obs["null"] = {"dev": s.st_dev, "ino": s.st_ino}
    obs["tmpdir"] = os.environ["TMPDIR"]
    return obs


def ends(ctx, node, pipes, how):
    """PIPE redirects, the other ends of which are used by hand"""
    loop = ctx.loop()
    obs = {"ends": {}}
    mine = []

    async def write(fd, data):
        os.set_blocking(fd, False)
        data = memoryview(data)
        while data:
            f = loop.create_future()
            loop.add_writer(fd, lambda: f.done() or f.set_result(None))
            await f
            loop.remove_writer(fd)
            try:
                data = data[os.write(fd, data[:50000]):]
            except BlockingIOError:
                pass
        os.close(fd)
        mine.remove(fd)
        return None

    async def read(fd):
        got = []
        while True:
            f = loop.create_future()
            loop.add_reader(fd, lambda: f.done() or f.set_result(None))
            await f
            loop.remove_reader(fd)
            b = os.read(fd, 65536)
            if not b:
                break
            got.append(b)
        os.close(fd)
        mine.remove(fd)
        return b"".join(got).hex()
    with ctx.stdio(True, b"") as io:
        p = ctx.build(node)
        rs = [pieshell.Redirect("stdout", pieshell.PIPE)]
        if how == "run":
            rs += [ctx.redirection({"fd": int(fd), "to": {"special": "PIPE"}, "flag": os.O_RDONLY if e[0] == "in" else os.O_WRONLY})
                   for cmd in pipes.values() for fd, e in cmd.items()]
        rp = ctx.rp = p.run(rs)
        todo = []
        for name, cmd in pipes.items():
            procs = [x for x in rp.processes if "nop:" + name in x.cmd._arg]
            assert len(procs) == 1
            for fd, (what, data) in cmd.items():
                r = procs[0].cmd._redirects.redirects[int(fd)]
                end = r.pipe
                if not isinstance(end, int):
                    obs["ends"]["%s:%s" % (name, fd)] = "none"
                    continue
                mine.append(end)
                fl = fcntl.fcntl(end, fcntl.F_GETFL) & 3
                obs["ends"]["%s:%s" % (name, fd)] = [fl, bool(fcntl.fcntl(end, fcntl.F_GETFD))]
                if fl == (os.O_WRONLY if what == "in" else os.O_RDONLY):
                    todo.append(("%s:%s" % (name, fd), write(end, bytes.fromhex(data)) if what == "in" else read(end)))
                else:
                    todo.append(None)
        data = []

        async def main():
            async for b in rp.iterbytes():
                data.append(bytes(b))
        ok = None not in todo
        if ok:
            async def both():
                return await asyncio.wait_for(asyncio.gather(main(), *[x[1] for x in todo], return_exceptions=True), 60)
            try:
                res = loop.run_until_complete(both())
                obs["read"] = {x[0]: r for x, r in zip(todo, res[1:]) if not isinstance(r, BaseException)}
                obs["exc"] = [repr(r) for r in res if isinstance(r, BaseException)]
            except asyncio.TimeoutError:
                obs["exc"] = ["did not end"]
        else:
            for x in todo:
                if x:
                    x[1].close()
            for x in rp.processes:
                os.kill(x.pid, 9)
            for fd in mine:
                os.close(fd)
            try:
                loop.run_until_complete(main())
            except pieshell.PipelineFailed:
                pass
        obs["out"] = b"".join(data).hex()
    return obs
