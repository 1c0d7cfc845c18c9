"""Looking at processes"""
import asyncio
import collections
import os
import shutil
import signal
import time

import psutil
import slugify

import pieshell
from .. import monitors
from ..monitors import REAL


Session = collections.namedtuple("Session", "name terminal host started pid")


def snapshot():
    """Everything /proc has: {pid: [ppid, state, exe, cmdline, name, pgrp, session, threads]}"""
    res = {}
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % d, "rb") as f:
                s = f.read().decode("utf-8", "surrogateescape")
            with open("/proc/%s/cmdline" % d, "rb") as f:
                c = f.read().decode("utf-8", "surrogateescape")
            try:
                x = os.readlink("/proc/%s/exe" % d)
            except PermissionError:
                x = None
            except FileNotFoundError:
                x = ""
            t = sorted(map(int, os.listdir("/proc/%s/task" % d)))
        except OSError:
            continue
        f = s[s.rindex(")") + 2:].split()
        res[int(d)] = [int(f[1]), f[0], x, c, s[s.index("(") + 1:s.rindex(")")], int(f[2]), int(f[3]), t]
    return res


def argv(ctx, node, top):
    """[path, argv[0], arguments...]"""
    path = os.path.join(ctx.case_links, node["prog"])
    res = [path, node["arg0"] or path]
    if node.get("sid"):
        res.append("setsid")
    elif node.get("pg"):
        res.append("pg")
    res += node["extra"]
    if node.get("reap"):
        res.append("ign:17")
    for k in node["kids"]:
        a = argv(ctx, k, top)
        res += ["kid:%d" % len(a)] + a
    if node.get("nodump"):
        res.append("nodump")
    return res + ["pidd:" + top + "/p", "waitd:" + top + "/c"]


def count(node):
    return 1 + sum(map(count, node["kids"]))


def pstree(ctx, links, trees, ops, fault):
    loop = ctx.loop()
    top = ctx.path("t")
    for d in ("", "/p", "/c", "/l", "/l/d"):
        os.mkdir(top + d)
    ctx.case_links = top + "/l"
    for n in links:
        shutil.copy(ctx.arg("@V", None), os.path.join(top, "l", n))
    obs = {"ops": [], "slugs": {}, "me": os.getpid(), "links": top + "/l"}
    spawned = []
    rps = []
    stopped = set()
    strings = set()

    def seen(snap):
        for pid, v in snap.items():
            c = v[3].split("\0")
            strings.update([c[0], c[0].split("/")[-1], v[2] or "", (v[2] or "").split("/")[-1], " ".join(c[:-1] if v[3].endswith("\0") else c), v[4], "pid_%d" % pid])
            # psutil has its own way with command lines with no NULs
            strings.add(" ".join(v[3].split(" ")))
        return snap

    def mine():
        """The processes of the case, but those started by it"""
        res = []
        for d in sorted(map(int, os.listdir(top + "/p"))):
            s = snapshot_one(d)
            if s is not None and s[1] != "Z" and top in s[0]:
                res.append(d)
        return res

    def snapshot_one(pid):
        try:
            with open("/proc/%d/stat" % pid, "rb") as f:
                s = f.read().decode("utf-8", "surrogateescape")
            with open("/proc/%d/cmdline" % pid, "rb") as f:
                c = f.read().decode("utf-8", "surrogateescape")
        except OSError:
            return None
        return c, s[s.rindex(")") + 2:].split()[0]

    def end(pid, how):
        if how == "kill" or pid in stopped:
            REAL["kill"](pid, signal.SIGKILL)
        else:
            with open("%s/c/%d" % (top, pid), "w"):
                pass
        for i in range(3000):
            s = snapshot_one(pid)
            if s is None or s[1] == "Z":
                return
            time.sleep(0.002)
        raise AssertionError("does not end")

    def reap(pid):
        try:
            REAL["waitpid"](pid, 0)
        except ChildProcessError:
            pass # By the shell

    def process(which, pids):
        if which == "current":
            return pieshell.ps.CURRENT
        if which == "init":
            return pieshell.ps.INIT
        return pieshell.ps.PstreeProcess(pids[which % len(pids)])

    def pid_of(p):
        return None if p is None else p.pid

    def walk(p, depth=0):
        """{name: pid or group}"""
        res = {}
        for name in dir(p):
            try:
                c = getattr(p, name)
            except AttributeError:
                res[name] = "gone"
                continue
            # Processes have children, groups are nothing more
            res[name] = c.pid if hasattr(c, "pid") else walk(c, depth + 1)
        return res

    kept = {}
    want = 0
    try:
        for t in trees:
            want += count(t["root"])
            a = argv(ctx, t["root"], top)
            if t["how"] == "fork":
                pid = REAL["fork"]()
                if pid == 0:
                    try:
                        os.execv(a[0], a[1:])
                    finally:
                        REAL["_exit"](99)
                spawned.append(pid)
            else:
                p = pieshell.pipeline.command.BaseCommand(ctx.env(cwd=ctx.dir), [a[0]] + [pieshell.environ.R(x) for x in a[2:]])
                if t["how"] == "pipe":
                    p = p | pieshell.pipeline.command.BaseCommand(ctx.env(cwd=ctx.dir), [a[0], "cat"])
                rps.append(p.run([pieshell.Redirect("stdout", "/dev/null")]))
        for i in range(4000):
            if len(os.listdir(top + "/p")) >= want:
                break
            loop.run_until_complete(asyncio.sleep(0.005))
        else:
            raise AssertionError("only %s of %s started" % (os.listdir(top + "/p"), want))
        for op in ops:
            k = op[0]
            o = {}
            obs["ops"].append(o)
            pids = mine()
            if not pids and k not in ("wait",):
                o["none"] = True
                continue
            if k == "end":
                pid = pids[op[1] % len(pids)]
                end(pid, op[2])
                o["pid"] = pid
            elif k == "stop":
                stopped.add(pids[op[1] % len(pids)])
                REAL["kill"](pids[op[1] % len(pids)], signal.SIGSTOP)
            elif k == "keep":
                kept[op[2]] = process(op[1], pids)
            elif k == "wait":
                # Whatever is running, the event loop notices what has ended
                loop.run_until_complete(asyncio.sleep(0.05))
            elif k in ("look", "rel", "attr", "race", "kept"):
                if k == "kept":
                    if op[1] not in kept:
                        continue
                    p = kept[op[1]]
                else:
                    p = process(op[1], pids)
                o["pid"] = pid_of(p)
                o["before"] = {c: v for c, v in seen(snapshot()).items() if v[0] == o["pid"] or c == o["pid"]}
                if k in ("look", "kept"):
                    o["walk"] = walk(p)
                elif k == "rel":
                    o["rel"] = [pid_of(p.PARENT), pid_of(p.GROUP), pid_of(p.SESS)]
                    o["alive"] = [x for x in snapshot()]
                elif k == "attr":
                    o["attr"] = [p.pid, p.ppid(), p.cmdline(), p.name(), p.status(), len(p), [t.id for t in p], p[0].id, p.num_threads(), sorted(p.as_dict(["pid"]).items())]
                    o["repr"] = repr(p)
                elif k == "race":
                    # Somebody ends just before psutil looks, whatever it looks at
                    n = [0]
                    olds = {}
                    ended = []

                    def fault_(name, old):
                        def f(self, *a, **kw):
                            n[0] += 1
                            if n[0] % op[2] == 0 and len(ended) < op[3]:
                                ps = [x for x in mine() if x != o["pid"]]
                                if ps:
                                    # Often the one being looked at
                                    x = self.pid if self.pid in ps and n[0] % 2 else ps[n[0] * 7 % len(ps)]
                                    end(x, "kill")
                                    if x in spawned:
                                        reap(x)
                                        spawned.remove(x)
                                    ended.append(x)
                            return old(self, *a, **kw)
                        return f
                    for name in ("exe", "cmdline", "status", "children", "name", "create_time", "is_running"):
                        olds[name] = getattr(psutil.Process, name)
                        setattr(psutil.Process, name, fault_(name, olds[name]))
                    try:
                        if op[4] == "dir":
                            o["names"] = sorted(dir(p))
                        else:
                            o["leaves"] = []

                            def look(g):
                                for name in dir(g):
                                    try:
                                        c = getattr(g, name)
                                    except AttributeError:
                                        continue # Not there any more
                                    if isinstance(c, pieshell.ps.PstreeProcess):
                                        o["leaves"].append(c.pid)
                                    else:
                                        look(c)
                            look(p)
                    except psutil.Error as e:
                        o["exc"] = repr(e)
                    finally:
                        for name, old in olds.items():
                            setattr(psutil.Process, name, old)
                    o["ended"] = ended
                o["after"] = {c: v for c, v in seen(snapshot()).items() if v[0] == o["pid"] or c == o["pid"]}
            elif k == "missing":
                p = process(op[1], pids)
                o["pid"] = pid_of(p)
                try:
                    getattr(p, op[2])
                    o["got"] = True
                except AttributeError:
                    o["got"] = False
            elif k == "users":
                ps = [pids[i % len(pids)] for i in op[1]]
                old = psutil.users
                psutil.users = lambda: [Session("u%d" % (i % 2), "tty%d" % i, ["localhost", "1.2.3.4"][i % 3 == 0], 1.0, pid) for i, pid in enumerate(ps + [4194304])]
                try:
                    o["pids"] = ps
                    o["before"] = {c: v for c, v in seen(snapshot()).items() if c in ps}
                    o["walk"] = walk(pieshell.ps.USERS)
                finally:
                    psutil.users = old
            elif k == "part":
                if not rps:
                    continue
                rp = rps[op[1] % len(rps)]
                proc = rp.processes[0]
                o["pid"] = proc.pid
                o["before"] = {c: v for c, v in seen(snapshot()).items() if v[0] == o["pid"] or c == o["pid"]}
                own = set(object.__dir__(rp))
                o["rp"] = sorted(set(dir(rp)) - own)
                o["procs"] = [os.path.basename(x.cmd._arg[0]) for x in rp.processes]
                o["found"] = [getattr(rp, n, None) is proc for n in o["rp"]]
                inner = set(pieshell.pipeline.running.RunningItem.__dir__(proc))
                names = [n for n in dir(proc) if n not in inner]
                o["walk"] = {}
                o["running"] = proc.is_running
                for n in names:
                    c = getattr(proc, n)
                    o["walk"][n] = c.pid if hasattr(c, "pid") else walk(c)
                o["cmdline"] = proc.cmdline() if proc.is_running and o["pid"] in o["before"] and o["before"][o["pid"]][1] != "Z" else None
                o["after"] = {c: v for c, v in seen(snapshot()).items() if v[0] == o["pid"] or c == o["pid"]}
    finally:
        with open(top + "/c/all", "w"):
            pass
        for pid in mine():
            try:
                REAL["kill"](pid, signal.SIGKILL)
            except OSError:
                pass
        for pid in spawned:
            reap(pid)

        async def ended():
            for rp in rps:
                try:
                    await asyncio.wait_for(rp.wait(), 20)
                except pieshell.PipelineError:
                    pass
        loop.run_until_complete(ended())
    strings.update(["u0", "u1", "localhost", "1.2.3.4"])
    obs["slugs"] = {s: slugify.slugify(s, separator="_") for s in strings}
    return obs
