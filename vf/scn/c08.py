"""Redirects compared with the same files opened by os.open() and the same
programs run without pieshell"""
import json
import os
import shutil
import stat

import pieshell
from .. import monitors
from ..monitors import REAL


def setup(root, pre, dirs):
    os.mkdir(root)
    for d in dirs:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for name, (kind, content, mode) in sorted(pre.items()):
        path = os.path.join(root, name)
        if kind == "file":
            with open(path, "wb") as f:
                f.write(bytes.fromhex(content))
            os.chmod(path, mode)
        elif kind == "link":
            os.symlink(content, path)
        elif kind == "dir":
            os.makedirs(path, exist_ok=True)
        elif kind == "fifo":
            os.mkfifo(path)


def tree(root):
    res = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            e = {"type": stat.S_IFMT(s.st_mode), "mode": stat.S_IMODE(s.st_mode)}
            if stat.S_ISREG(s.st_mode):
                e["ino"] = s.st_ino
                old = stat.S_IMODE(s.st_mode)
                os.chmod(p, 0o600)
                with open(p, "rb") as f:
                    e["content"] = f.read().hex()
                os.chmod(p, old)
            res[os.path.relpath(p, root)] = e
    return res


def reference(ctx, root, cmds, umask, stdout):
    """Runs each of the chain after the other, without pieshell"""
    codes = []
    feed = ctx.path("stdin")
    for i, c in enumerate(cmds):
        outp = ctx.path("feed%d" % i)
        last = i == len(cmds) - 1
        errs = []
        pid = REAL["fork"]()
        if pid == 0:
            code = 99
            try:
                fds = {0: os.open(feed, os.O_RDONLY), 2: os.open("/dev/null", os.O_WRONLY),
                       1: os.open(stdout, os.O_WRONLY | os.O_APPEND) if last else os.open(outp, os.O_WRONLY | os.O_CREAT, 0o600)}
                REAL["umask"](umask)
                for fd, path, flags, mode in c["redirects"]:
                    path = path.replace("@W", root)
                    try:
                        fds[fd] = os.open(os.path.join(root, c["cwd"], path), flags, mode)
                    except OSError as e:
                        errs.append(e.errno)
                if errs:
                    with open(ctx.path("errs%d" % i), "w") as f:
                        json.dump(errs, f)
                    REAL["_exit"](97)
                moved = {fd: __import__("fcntl").fcntl(s, 0, 100) for fd, s in fds.items()}
                for fd, s in moved.items():
                    os.dup2(s, fd, inheritable=True)
                os.closerange(100, 200)
                os.chdir(os.path.join(root, c["cwd"]))
                os.execvp("vh", [a.replace("@W", root) for a in c["argv"]])
            except BaseException:
                import traceback
                traceback.print_exc()
            finally:
                REAL["_exit"](code)
        st = REAL["waitpid"](pid, 0)[1]
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
        if code == 97:
            with open(ctx.path("errs%d" % i)) as f:
                codes.append(json.load(f))
        else:
            codes.append([code])
        feed = outp
        if not os.path.exists(outp):
            with open(outp, "w"):
                pass
        if not last:
            keep = ctx.path("keep%d" % i)
            shutil.move(outp, keep)
            feed = keep
    return codes


def redirs(ctx, node, cmds, pre, dirs, umask, runs, way):
    obs = {"codes": [], "want": []}
    A, B = ctx.path("A"), ctx.path("B")
    setup(A, pre, dirs)
    setup(B, pre, dirs)
    before = tree(A)
    with open(ctx.path("stdout_ref"), "w"):
        pass
    real_dir = ctx.dir
    stdin = b"standard in\n"
    real_dir = ctx.dir
    with ctx.stdio(True, stdin) as io:
        os.umask(umask)
        try:
            ctx.dir = A
            for d in dirs:
                ctx.envs[d or "."] = ctx.env(cwd=os.path.join(A, d))
            ctx.env._cd(A)
            p = ctx.build(node)
            repr(p)
            obs["built"] = tree(A) == before
            rps = []
            for i in range(runs):
                try:
                    if way == "seq":
                        rp = +p
                    else:
                        rp = p.run_interactive()
                except pieshell.PipelineFailed as e:
                    rp = e.pipeline
                monitors.returned_in_child("run")
                obs["codes"].append([x.exit_code for x in rp.processes])
                obs["err"] = [x.output_content.get(2) for x in rp.processes]
                os.lseek(0, 0, os.SEEK_SET)
        finally:
            ctx.dir = real_dir
            os.umask(0o022)
        obs["out"] = ctx.save(io.data())
    for i in range(runs):
        obs["want"].append(reference(ctx, B, cmds, umask, ctx.path("stdout_ref")))
    obs["before"] = before
    obs["A"] = tree(A)
    obs["B"] = tree(B)
    dumps = {}
    for n in os.listdir(ctx.dir):
        if n.startswith("dump"):
            with open(ctx.path(n)) as f:
                dumps[n] = {fd: d["fl"] for fd, d in json.load(f)["fds"].items()}
    obs["dumps"] = dumps
    obs["ref"] = os.path.join(os.path.basename(ctx.dir), "stdout_ref")
    return obs


def shared(ctx, node, pre, name, runs):
    """One file of several processes"""
    obs = {}
    if pre is not None:
        with open(ctx.path(name), "wb") as f:
            f.write(bytes.fromhex(pre))
    with ctx.stdio(True) as io:
        p = ctx.build(node)
        for i in range(runs):
            try:
                +p
            except pieshell.PipelineFailed as e:
                obs["failed"] = str(e)[:1000]
            monitors.returned_in_child("run")
        obs["out"] = ctx.save(io.data())
    with open(ctx.path(name), "rb") as f:
        obs["file"] = ctx.save(f.read())
    return obs
