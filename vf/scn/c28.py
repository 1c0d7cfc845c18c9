"""The shell at a terminal"""
import fcntl
import os
import pty
import re
import select
import signal
import struct
import termios
import time

from ..monitors import REAL

STEP = 40


def alive(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rpartition(")")[2].split()[0]
    except OSError:
        return None


class Terminal(object):
    """Someone typing at a terminal pieshell runs in"""
    def __init__(self, ctx, argv, cwd, env, pt):
        self.ctx = ctx
        self.pt = pt
        self.raw = b""
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            try:
                for i in range(500):
                    if os.path.exists(ctx.path("sized")):
                        break
                    time.sleep(0.01)
                signal.pthread_sigmask(signal.SIG_SETMASK, [])
                for s in (signal.SIGINT, signal.SIGTSTP, signal.SIGCHLD, signal.SIGPIPE):
                    signal.signal(s, signal.SIG_DFL)
                os.chdir(cwd)
                os.closerange(3, 4096)
                os.execvpe("pieshell", ["pieshell"] + argv, env)
            finally:
                os._exit(99)
        fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", 60, 400, 0, 0))
        with open(ctx.path("sized"), "w"):
            pass
        self.eof = False

    def read(self, t):
        """Whether there was anything in that time"""
        if self.eof:
            time.sleep(t)
            return False
        if not select.select([self.fd], [], [], t)[0]:
            return False
        try:
            data = os.read(self.fd, 65536)
        except OSError:
            data = b""
        if not data:
            self.eof = True
            return False
        self.raw += data
        for i in range(data.count(b"\x1b[6n")):
            os.write(self.fd, b"\x1b[1;1R")
        return True

    def take(self):
        res, self.raw = self.raw, b""
        return res

    def clean(self):
        return re.sub(rb"\x1b(\[[0-9;?]*[ -/]*[a-zA-Z@]|[=>])", b"", self.raw).decode("utf-8", "replace")

    def prompted(self, more=False):
        if self.pt:
            done = self.raw.rfind(b"\x1b[0 q")
            return (done >= 0 or self.first) and self.raw.rfind(b"\x1b[2 q") > done
        text = self.clean()
        if more:
            return text.endswith("... ")
        return text.endswith(">>> ") and (self.first or "\n" in text)

    def wait(self, until, limit=STEP, quiet=0.12):
        """True if it happened, and then nothing more for a while"""
        end = time.monotonic() + limit
        while time.monotonic() < end:
            if self.read(quiet):
                continue
            if until():
                return True
            if self.eof:
                return False
        return False

    first = True


def terminal(ctx, argv, env, config, history, script, pt, dirs=()):
    ctx.loop()
    top = ctx.path("top")
    os.mkdir(top)
    for d in dirs:
        os.mkdir(os.path.join(top, d))
    home = ctx.path("home")
    os.makedirs(os.path.join(home, ".config"))
    if config is not None:
        with open(os.path.join(home, ".config", "pieshell"), "w") as f:
            f.write(config)
    hist = os.path.join(home, ".config", "pieshell.history")
    if history is not None:
        with open(hist, "w") as f:
            f.write("".join(l + "\n" for l in history))
    log = ctx.path("log")
    with open(log, "w"):
        pass
    e = dict(os.environ, HOME=home, VF_LOG=log, VF_TOP=top, TERM="xterm", **env)
    t = Terminal(ctx, argv, top, e, pt)
    pids = set()
    res = {"steps": [], "top": top, "log": [], "ok": True, "exit": None}

    def logged():
        with open(log) as f:
            return f.read().split("\n")[:-1]
    try:
        for what, arg in script:
            ok = True
            step = {}
            if what == "type":
                t.first = False
                os.write(t.fd, arg.encode("utf-8"))
            elif what == "prompt":
                ok = t.wait(lambda: t.prompted(arg == "more"))
                step["out"] = t.clean()[-6000:]
                t.take()
                step["log"] = logged()
            elif what == "log":
                ok = t.wait(lambda: arg in logged(), quiet=0.05)
                # Let it be waited for too
                t.wait(lambda: False, limit=0.3)
            elif what == "gate":
                with open(os.path.join(top, arg), "w"):
                    pass
            elif what == "state":
                with open(os.path.join(top, arg[0])) as f:
                    pid = int(f.read())
                pids.add(pid)
                want = {"stopped": "Tt", "running": "RSD", "gone": "Z"}[arg[1]]

                def reached():
                    s = alive(pid)
                    return (s is None and arg[1] == "gone") or (s is not None and s in want)
                ok = t.wait(reached, limit=15, quiet=0.02)
                step["state"] = alive(pid)
            elif what == "pause":
                t.wait(lambda: False, limit=arg)
            elif what == "asked":
                ok = t.wait(lambda: arg in t.clean())
            elif what == "end":
                ok = t.wait(lambda: t.eof, limit=STEP)
                step["out"] = t.clean()[-3000:]
                t.take()
            step["ok"] = ok
            res["steps"].append(step)
            if not ok:
                if "out" not in step:
                    step["out"] = t.clean()[-3000:]
                res["ok"] = False
                break
        end = time.monotonic() + (STEP if res["ok"] else 0)
        status = None
        while True:
            pid, st = REAL["waitpid"](t.pid, os.WNOHANG)
            if pid:
                status = st
                break
            if time.monotonic() > end:
                break
            t.read(0.05)
        if status is None:
            REAL["kill"](t.pid, signal.SIGKILL)
            REAL["waitpid"](t.pid, 0)
            res["exit"] = "none"
        else:
            res["exit"] = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
    finally:
        os.close(t.fd)
        # What is left in its session
        for n in os.listdir("/proc"):
            if not n.isdigit():
                continue
            try:
                if os.getsid(int(n)) == t.pid:
                    REAL["kill"](int(n), signal.SIGKILL)
            except OSError:
                pass
    res["log"] = logged()
    res["history"] = None
    if os.path.exists(hist):
        with open(hist, errors="replace") as f:
            res["history"] = f.read().split("\n")[:-1]
    return res
