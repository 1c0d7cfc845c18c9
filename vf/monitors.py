"""Monitors at the boundary between the code under test and the operating
system.  Installed in the worker before pieshell is imported."""
import collections
import errno
import os
import random
import signal
import stat
import sys
import time

REAL = {name: getattr(os, name) for name in
        "fork waitpid kill killpg close pipe read write open dup dup2 unlink getpid chdir umask _exit".split()}
MAIN = os.getpid()


class Monitor(object):
    def __init__(self):
        self.reset(0, {})
        self.counters = collections.Counter()
        self.sigs = set()
        self.children = {}     # pid -> state ("live", "dead"), since the worker started
        self.in_child = False
        self.leakfile = None
        self.on_fork = []
        self.badkills = []

    def reset(self, seed, delays):
        self.rng = random.Random(seed)
        self.delays = delays
        self.events = []
        self.forked = []
        self.reaped = []
        self.kills = []
        self.badclose = []
        self.nreads = 0
        self.loop_errors = []

    def event(self, *e):
        if len(self.events) < 4000:
            self.events.append(e)

    def seqno(self, pid):
        try:
            return self.forked.index(pid)
        except ValueError:
            return -1

    def pause(self, what):
        d = self.delays.get(what)
        if d and self.rng.random() < d[0]:
            time.sleep(d[1] if len(d) > 2 else self.rng.random() * d[1])


M = Monitor()


def returned_in_child(what):
    """Called from code of the workload: only the worker may run that"""
    if REAL["getpid"]() != MAIN:
        if M.leakfile:
            with open(M.leakfile, "a") as f:
                f.write("%s: pid %s\n" % (what, REAL["getpid"]()))
                f.flush()
        REAL["_exit"](98)


def fork():
    if REAL["getpid"]() != MAIN:
        return REAL["fork"]()
    state = M.rng.getstate()
    pid = REAL["fork"]()
    if pid == 0:
        M.in_child = True
        M.pause("child")
        return pid
    M.rng.setstate(state)
    M.rng.random()
    M.forked.append(pid)
    M.children[pid] = "live"
    M.counters["forks"] += 1
    M.event("f", len(M.forked) - 1)
    for fn in M.on_fork:
        fn(pid)
    M.pause("fork")
    return pid


def waitpid(pid, flags):
    r = REAL["waitpid"](pid, flags)
    if REAL["getpid"]() == MAIN and r[0]:
        p, st = r
        if os.WIFEXITED(st) or os.WIFSIGNALED(st):
            M.children[p] = "dead"
            M.reaped.append(p)
            M.counters["children reaped"] += 1
            M.event("r", M.seqno(p))
            if os.WIFSIGNALED(st):
                M.counters["children killed by signals"] += 1
        elif os.WIFSTOPPED(st):
            M.event("s", M.seqno(p))
            M.counters["children stopped"] += 1
        else:
            M.event("c", M.seqno(p))
            M.counters["children continued"] += 1
    return r


def kill(pid, sig):
    if REAL["getpid"]() != MAIN:
        return REAL["kill"](pid, sig)
    M.counters["kill calls"] += 1
    state = M.children.get(pid)
    M.kills.append([pid, int(sig), state])
    if pid == MAIN:
        return REAL["kill"](pid, sig)
    if state != "live":
        # Not one of ours any more: a stand-in, this could hit anyone
        M.badkills.append([pid, int(sig), state])
        raise ProcessLookupError(errno.ESRCH, "No such process")
    M.event("k", M.seqno(pid), int(sig))
    return REAL["kill"](pid, sig)


def killpg(pid, sig):
    if REAL["getpid"]() != MAIN:
        return REAL["killpg"](pid, sig)
    M.kills.append([-pid, int(sig), "group"])
    M.badkills.append([-pid, int(sig), "group"])
    raise ProcessLookupError(errno.ESRCH, "No such process")


def close(fd):
    if REAL["getpid"]() != MAIN:
        return REAL["close"](fd)
    M.counters["closes"] += 1
    try:
        return REAL["close"](fd)
    except OSError as e:
        if e.errno == errno.EBADF:
            M.badclose.append(fd)
        raise


def read(fd, n):
    if REAL["getpid"]() != MAIN:
        return REAL["read"](fd, n)
    M.counters["reads"] += 1
    M.nreads += 1
    d = M.delays.get("short")
    if d and n > 1 and M.rng.random() < d and stat.S_ISFIFO(os.fstat(fd).st_mode):
        # A pipe may always give less than one asks for
        n = M.rng.randrange(1, min(n, 40))
        M.counters["reads made short"] += 1
    M.pause("read")
    r = REAL["read"](fd, n)
    M.event("i", fd, len(r))
    return r


def write(fd, data):
    if REAL["getpid"]() == MAIN and fd > 2:
        M.pause("write")
        M.counters["writes"] += 1
        M.event("o", fd, len(data))
    return REAL["write"](fd, data)


def pipe():
    r, w = REAL["pipe"]()
    if REAL["getpid"]() == MAIN:
        M.counters["pipes"] += 1
        if M.delays.get("smallpipe"):
            import fcntl
            try:
                fcntl.fcntl(w, 1031, 4096)  # F_SETPIPE_SZ
            except OSError:
                pass
    return r, w


def install():
    for name in "fork waitpid kill killpg close read write pipe".split():
        setattr(os, name, globals()[name])


# -- what there is --------------------------------------------------------

def fd_table():
    """{fd: (what, flags)} of this process"""
    res = {}
    for name in os.listdir("/proc/self/fd"):
        fd = int(name)
        try:
            link = os.readlink("/proc/self/fd/%s" % name)
        except OSError:
            continue  # The one of the directory
        res[fd] = link
    return res


def children():
    """pids of all children, zombies too: {pid: (state, name)}"""
    res = {}
    me = str(os.getpid())
    for d in os.listdir("/proc"):
        if not d.isdigit():
            continue
        try:
            with open("/proc/%s/stat" % d) as f:
                s = f.read()
        except OSError:
            continue
        fields = s[s.rindex(")") + 2:].split()
        if fields[1] == me:
            res[int(d)] = (fields[0], s[s.index("(") + 1:s.rindex(")")])
    return res


def state(pid):
    """One letter of the state of a process; None if there is none"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
    except OSError:
        return None
    return s[s.rindex(")") + 2:].split()[0]
