"""Runs a batch of cases against pieshell, in one shell, under the monitors."""
import sys
import os
import json

cfgfile, outfd = sys.argv[1], int(sys.argv[2])
with open(cfgfile) as f:
    JOB = json.load(f)

import resource
import signal
import faulthandler

if JOB["uid"]:
    resource.setrlimit(resource.RLIMIT_NPROC, (4000, 4000))
    os.setgroups([])
    os.setgid(JOB["uid"])
    os.setuid(JOB["uid"])
CFG = JOB["cfg"]
nofile = CFG.get("nofile", 256)
resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, CFG.get("nofile_hard", nofile)))
resource.setrlimit(resource.RLIMIT_CORE, (0, resource.getrlimit(resource.RLIMIT_CORE)[1]))
resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 29, 1 << 29))
os.set_inheritable(outfd, False)
os.umask(0o022)
# As in a shell started from a terminal, however the check was started
for sig in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGCHLD, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU,
            signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM, signal.SIGCONT, signal.SIGWINCH):
    signal.signal(sig, signal.SIG_DFL)
signal.signal(signal.SIGINT, signal.default_int_handler)
signal.signal(signal.SIGPIPE, signal.SIG_IGN)
signal.pthread_sigmask(signal.SIG_SETMASK, [])
faulthandler.register(signal.SIGUSR2, all_threads=True, chain=False)

from vf import monitors
monitors.install()

if CFG.get("backend") == "asyncio":
    sys.modules["signalfd"] = None

import asyncio
import logging
if CFG.get("backend") == "asyncio":
    # The notice that there is no signalfd
    logging.getLogger("signalsupport").setLevel(logging.CRITICAL + 10)
import pieshell

sys.argv = ["pieshell"]
from vf import ctx
ctx.run(JOB, outfd)
