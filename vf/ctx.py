"""What scenarios (vf/scn) use to build and run pipelines.  Runs in the worker."""
import asyncio
import atexit
import gc
import importlib
import json
import os
import re
import shutil
import sys
import threading
import time
import traceback
import types
import signal

import pieshell
from pieshell import env as default_env
from . import monitors, model
from .monitors import M, REAL

PIPE_ID = re.compile(r"nop:([A-Za-z0-9]+)")
FN_ID = re.compile(r"vf_([A-Za-z0-9]+)_")


class Obj(object):
    def __init__(self, x):
        self.x = x

    def __str__(self):
        return "obj<%s>" % self.x


class Raised(Exception):
    pass


class BaseRaised(BaseException):
    pass


EXC = {"ValueError": ValueError, "Raised": Raised, "KeyError": KeyError, "OSError": OSError,
       "ZeroDivisionError": ZeroDivisionError, "RuntimeError": RuntimeError, "StopAsyncIteration2": Raised,
       "CancelledError": asyncio.CancelledError, "BaseRaised": BaseRaised, "GeneratorExit": GeneratorExit, "LookupError": LookupError}


def item(it):
    (k, v), = it.items()
    if k == "s":
        return v
    if k == "b":
        return bytes.fromhex(v)
    if k == "big":
        return model.cprng(v[0], v[1]).replace(b"\n", b"_")
    if k == "bigs":
        return "\u00e5" * v
    if k in ("i", "l"):
        return v
    if k == "f":
        return float(v)
    if k == "obj":
        return Obj(v)
    if k == "none":
        return None
    if k == "raise":
        raise EXC[v]("raised by the iterator")
    if k == "co":
        async def co():
            if v.get("sleep"):
                await asyncio.sleep(v["sleep"])
            return item({kk: vv for kk, vv in v.items() if kk != "sleep"})
        return co()
    raise ValueError(k)


class NamedList(list):
    pass


def named_list(name, items):
    cls = type("vf_%s_" % name, (list,), {"__repr__": lambda self: "vf_%s_" % name})
    return cls(items)


class Ctx(object):
    def __init__(self, job, no, case):
        self.job = job
        self.case = case
        self.dir = os.path.join(job["dir"], "c%d" % no)
        os.mkdir(self.dir)
        self.env = default_env(cwd=self.dir)
        self.envs = {}
        self.refs = {}
        self.insub = []     # the subshells being built
        self.effects = {}   # see function op "effect"
        self.log = {}       # function id -> lines it got
        self.wrote = {}
        self.threads = []
        self.nfiles = 0

    def path(self, name):
        return os.path.join(self.dir, name)

    def save(self, data, name=None):
        if name is None:
            self.nfiles += 1
            name = "saved%d" % self.nfiles
        with open(self.path(name), "wb") as f:
            f.write(data)
        return os.path.join(os.path.basename(self.dir), name)

    # -- building -----------------------------------------------------
    def arg(self, a, env):
        if isinstance(a, str):
            return a.replace("@D", self.dir).replace("@V", os.path.join(os.environ["VF_BIN"], "vh"))
        if "n" in a:
            return self.build_raw(a["n"], env)
        if "R" in a:
            return pieshell.R(a["R"].replace("@D", self.dir))
        if "v" in a:
            return a["v"]
        raise ValueError(a)

    def build(self, node, env=None):
        """A pieshell pipeline; functions and iterators made into one too"""
        p = self.build_raw(node, env)
        if not isinstance(p, pieshell.Pipeline):
            p = pieshell.Function(env or self.env, p)
        return p

    def build_raw(self, node, env=None):
        env = env or self.env
        k = node[0]
        if k == "c":
            opts = node[2] if len(node) > 2 else {}
            if opts.get("badredir"):
                p = self.build_raw(["c", node[1], {k: v for k, v in opts.items() if k != "badredir"}], env)
                for r in opts["badredir"]:
                    p = self.redirect(p, r)
                return p
            if opts.get("env"):
                env = self.envs[opts["env"]]
            args = []
            for a in node[1]:
                if isinstance(a, dict) and "kw" in a:
                    args.append({n: (v if isinstance(v, bool) else self.arg(v, env)) for n, v in a["kw"].items()})
                else:
                    args.append(self.arg(a, env))
            style = node[2].get("style", 0) if len(node) > 2 else 0
            if style == 0 or not isinstance(args[0], str):
                return env._(*args)
            if style == 1:
                return getattr(env, args[0])(*args[1:])
            if style == 2:
                p = getattr(env, args[0])
                for a in args[1:]:
                    p = p(a)
                return p
            if style == 3:
                p = env._
                for a in args:
                    p = getattr(p, a) if isinstance(a, str) and not a.startswith("_") else p(a)
                return p
            raise ValueError(style)
        if k == "it":
            return self.iterator(node[1], node[2], node[3])
        if k == "fn":
            return self.function(node[1], node[2], node[3])
        if k in ("|", "+"):
            a = self.build_raw(node[1], env)
            b = self.build_raw(node[2], env)
            if not isinstance(a, pieshell.Pipeline) and (k == "+" or not isinstance(b, pieshell.Pipeline)):
                a = pieshell.Function(env, a)
            if k == "+" and not isinstance(b, pieshell.Pipeline):
                b = pieshell.Function(env, b)
            return a | b if k == "|" else a + b
        if k == "r":
            return self.redirect(self.build(node[1], env), node[2])
        if k == "ref":      # the same object every time
            if node[1] not in self.refs:
                self.refs[node[1]] = self.build_raw(node[2], env)
            return self.refs[node[1]]
        if k == "sub":
            self.insub.append(node[2])
            try:
                inner = node[1] if node[1] is None or isinstance(node[1], (str, int)) else self.build(node[1], env)
            finally:
                self.insub.pop()
            return env.subshell(inner, "nop:" + node[2])
        if k == "b":        # a builtin
            if len(node) > 3:
                env = self.envs[node[3]]
            return getattr(env, node[1])(*[self.arg(a, env) for a in node[2]])
        raise ValueError(k)

    def target(self, t):
        """What to redirect to"""
        if t is None or isinstance(t, int):
            return t
        if isinstance(t, dict):
            import pathlib
            (k, v), = t.items()
            if k == "bytes":
                return v.replace("@D", self.dir).encode("utf-8", "surrogateescape")
            if k == "path":
                return pathlib.Path(v.replace("@D", self.dir))
            if k == "pure":
                return pathlib.PurePosixPath(v.replace("@D", self.dir))
            if k == "special":
                return {"TMP": pieshell.TMP, "STRING": pieshell.STRING, "PIPE": pieshell.PIPE}[v]
            if k == "fd":
                return self.fds[v]
            raise ValueError(t)
        return t.replace("@D", self.dir)

    def redirection(self, r):
        kw = {k: r[k] for k in ("flag", "mode", "borrowed") if k in r}
        return pieshell.Redirect(r["fd"], self.target(r["to"]), **kw)

    def redirect(self, p, r):
        form = r.get("form", "obj")
        t = self.target(r["to"])
        if form == "|":
            return p | t
        if form == ">":
            return p > t
        if form == "<":
            return p < t
        if form == "ror":
            return t | p
        kw = {}
        if "flag" in r:
            kw["flag"] = r["flag"]
        if "mode" in r:
            kw["mode"] = r["mode"]
        if r.get("borrowed"):
            kw["borrowed"] = True
        o = pieshell.Redirect(r["fd"], t, **kw)
        if form == "rorobj":
            return p.__ror__(o)
        return p | o

    def guard(self, id):
        """Called by the parts written in Python: they may only run in the
        shell, or, if they are part of a subshell, in the process of that"""
        if not self.insub:
            return monitors.returned_in_child
        line = "%s %s" % (".".join(self.insub), id)
        seen = set()

        def guard(what):
            pid = REAL["getpid"]()
            if pid not in seen:
                seen.add(pid)
                fd = os.open(self.path("subpids"), os.O_WRONLY | os.O_APPEND | os.O_CREAT | os.O_CLOEXEC, 0o666)
                REAL["write"](fd, ("%s %d\n" % (line, pid)).encode())
                REAL["close"](fd)
        return guard

    def iterator(self, kind, items, id):
        guard = self.guard(id)
        wrote = self.wrote.setdefault(id, [0])

        def gen():
            for i in items:
                guard("iterator")
                wrote[0] += 1
                yield item(i)
        gen.__name__ = gen.__qualname__ = "vf_%s_" % id
        if kind == "gen":
            return gen()
        if kind == "list":
            return named_list(id, [item(i) for i in items])
        if kind == "plainlist":
            return [item(i) for i in items]
        if kind == "tuple":
            return tuple(item(i) for i in items)
        if kind == "iterable":
            class It(object):
                def __iter__(self):
                    return gen()

                def __repr__(self):
                    return "vf_%s_" % id
            return It()
        if kind == "iterator":
            class It2(object):
                def __init__(self):
                    self.it = gen()

                def __iter__(self):
                    return self

                def __next__(self):
                    return next(self.it)

                def __repr__(self):
                    return "vf_%s_" % id
            return It2()
        if kind == "map":
            return map(lambda x: x, gen())
        if kind == "fgen":     # a function called without using its input
            def f(stdin):
                return gen()
            f.__name__ = f.__qualname__ = "vf_%s_" % id
            return f
        if kind == "fagen":
            async def g(stdin):
                for i in items:
                    guard("function")
                    await asyncio.sleep(0)
                    wrote[0] += 1
                    yield item(i)
            g.__name__ = g.__qualname__ = "vf_%s_" % id
            return g
        if kind == "fsleep":
            async def g(stdin):
                for i in items:
                    guard("function")
                    await asyncio.sleep(0.003)
                    wrote[0] += 1
                    yield item(i)
            g.__name__ = g.__qualname__ = "vf_%s_" % id
            return g
        if kind == "flist":
            def f(stdin):
                guard("function")
                return [item(i) for i in items]
            f.__name__ = f.__qualname__ = "vf_%s_" % id
            return f
        if kind == "method":
            class C(object):
                def m(self, stdin):
                    return gen()
            C.m.__name__ = "vf_%s_" % id
            C.m.__qualname__ = "vf_%s_" % id
            return C().m
        if kind == "coro":     # one item
            async def c(stdin):
                guard("function")
                await asyncio.sleep(0)
                return item(items[0])
            c.__name__ = c.__qualname__ = "vf_%s_" % id
            return c
        if kind == "plain":    # one item, not iterable
            def p(stdin):
                guard("function")
                return item(items[0])
            p.__name__ = p.__qualname__ = "vf_%s_" % id
            return p
        raise ValueError(kind)

    def function(self, op, params, id):
        if op == "named":
            return importlib.import_module("vf.scn.c20").FUNCTIONS[params["name"]]
        guard = self.guard(id)
        got = self.log.setdefault(id, [])
        nap = params.get("nap", 0)
        if op == "cmd":
            inner = self.build(params["node"])
        if op == "gate":
            gate = self.gates[id] = asyncio.Event()
            self.gates_used.add(id)
        style = params.get("style", "agen")

        async def lines(stdin):
            async for line in stdin:
                guard("function")
                if not isinstance(line, str):
                    raise TypeError("line is %s" % type(line))
                got.append(line)
                if nap:
                    await asyncio.sleep(nap)
                yield line

        async def out(stdin):
            if op == "up":
                async for l in lines(stdin):
                    yield l.upper()
            elif op == "id":
                async for l in lines(stdin):
                    yield l
            elif op == "num":
                n = 0
                async for l in lines(stdin):
                    yield "%d:%s" % (n, l)
                    n += 1
            elif op == "dup":
                async for l in lines(stdin):
                    yield l
                    yield l.encode("utf-8", "surrogateescape")
            elif op == "odd":
                n = 0
                async for l in lines(stdin):
                    yield l if n % 2 else None
                    n += 1
            elif op == "lag":
                ls = [l async for l in lines(stdin)]
                for l in ls:
                    yield l
            elif op == "cnt":
                ls = [l async for l in lines(stdin)]
                yield "%d %d" % (len(ls), sum(len(l.encode("utf-8", "surrogateescape")) for l in ls))
            elif op == "take":
                n = params["n"]
                if n:
                    async for l in lines(stdin):
                        yield l
                        n -= 1
                        if not n:
                            break
            elif op == "ignore":
                for i in params["items"]:
                    yield item(i)
            elif op == "items":
                async for l in lines(stdin):
                    pass
                for i in params["items"]:
                    yield item(i)
            elif op == "sink":
                async for l in lines(stdin):
                    pass
            elif op == "effect":    # whatever changes the process it runs in
                async for l in lines(stdin):
                    yield l
                self.effect(params["what"])
                yield "effects"
            elif op == "cmd":       # runs a pipeline of its own
                async for l in lines(stdin):
                    pass
                async for l in inner:
                    yield l
            elif op == "die":
                if params.get("read"):
                    async for l in lines(stdin):
                        pass
                guard("function")
                raise {"SystemExit": SystemExit, "KeyboardInterrupt": KeyboardInterrupt, "BaseRaised": BaseRaised,
                       "GeneratorExit": GeneratorExit}[params["exc"]](*params["args"])
            elif op == "gate":      # until told to end
                try:
                    if params.get("read"):
                        async for l in lines(stdin):
                            pass
                    await gate.wait()
                    if params.get("exc"):
                        raise EXC[params["exc"]]("raised by the function")
                finally:
                    self.finished.add(id)
                for i in params["items"]:
                    yield item(i)
            elif op == "raise":
                n = params["n"]
                exc = EXC[params["exc"]]
                if n:
                    async for l in lines(stdin):
                        yield l
                        n -= 1
                        if not n:
                            break
                if params.get("always") and not n:
                    raise exc("raised by the function")
                if not n:
                    async for l in lines(stdin):
                        raise exc("raised by the function")
            else:
                raise ValueError(op)

        if style == "coro":
            # One item from a coroutine
            async def fn(stdin):
                res = [i async for i in out(stdin)]
                return res[0] if res else None
        elif style == "ret":
            # Returns an asynchronous iterator
            def fn(stdin):
                guard("function")
                return out(stdin)
        elif style == "args":
            async def fn(stdin):
                async for i in out(stdin):
                    yield i
        elif style == "class":
            class AIt(object):
                def __init__(self, stdin):
                    self.o = out(stdin)

                def __aiter__(self):
                    return self

                async def __anext__(self):
                    return await self.o.__anext__()

            def fn(stdin):
                return AIt(stdin)
        elif style == "method":
            class C(object):
                async def m(self, stdin):
                    async for i in out(stdin):
                        yield i
            C.m.__name__ = C.m.__qualname__ = "vf_%s_" % id
            return C().m
        else:
            async def fn(stdin):
                async for i in out(stdin):
                    yield i
        fn.__name__ = fn.__qualname__ = "vf_%s_" % id
        if params.get("name"):
            fn.__name__ = fn.__qualname__ = params["name"]
            fn.__module__ = "vf_%s_" % id
        return fn

    def effect(self, what):
        for w in what:
            if w == "environ":
                os.environ["VF_EFFECT"] = "1"
            elif w == "chdir":
                os.chdir("/")
            elif w == "umask":
                os.umask(0o077)
            elif w == "variable":
                self.effects["variable"] = 1
            elif w == "exports":
                self.env._exports["VF_EFFECT"] = "1"
            elif w == "cd":
                self.env._cd("/")
            elif w == "gc":
                for i in range(3):
                    gc.collect()
            elif w == "file":
                self.pendfile.write("written by a subshell\n")
            elif w == "print":
                print("printed by a subshell")
            elif w == "signal":
                signal.signal(signal.SIGUSR1, signal.SIG_IGN)
            else:
                raise ValueError(w)

    # -- running ------------------------------------------------------
    def loop(self):
        return asyncio.get_event_loop()

    def part_id(self, p):
        return part_id(repr(p.cmd), isinstance(p, pieshell.RunningProcess))

    def describe(self, rp, strings=True):
        parts = []
        failed = {id(p) for p in rp.failed_processes}
        running = {id(p) for p in rp.running_processes}
        for p in rp.processes:
            if not hasattr(p, "cmd"):        # fg
                parts.append({"id": repr(p), "kind": "fg", "running": bool(p.is_running)})
                continue
            r = repr(p.cmd)
            isproc = isinstance(p, pieshell.RunningProcess)
            d = {"id": part_id(r, isproc), "kind": "c" if isproc else "fn",
                 "running": bool(p.is_running),
                 "inrunning": id(p) in running, "infailed": id(p) in failed}
            if not p.is_running:
                d["failed"] = bool(p.is_failed)
                if isproc:
                    d["code"] = p.exit_code
                else:
                    e = p.iohandler.exception
                    d["exc"] = type(e).__name__ if e is not None else None
                if strings:
                    d["content"] = {str(fd): v for fd, v in p.output_content.items()}
            parts.append(d)
        res = {"parts": parts, "running": bool(rp.is_running), "failed": bool(rp.is_failed)}
        if any("code" in p for p in parts) and not rp.is_running and not any(p["kind"] == "fg" for p in parts):
            res["exit"] = rp.exit_code
        return res

    def exc(self, e, strings=True):
        d = {"type": type(e).__name__, "str": None}
        if isinstance(e, pieshell.PipelineError):
            d["pipeline"] = self.describe(e.pipeline, strings)
            try:
                d["str"] = str(e)[:20000]
            except Exception as e2:
                d["strfail"] = "%s: %s" % (type(e2).__name__, e2)
        else:
            d["str"] = str(e)[:1000]
            d["tb"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
        return d

    def stdio(self, out=True, stdin=None):
        return Stdio(self, out, stdin)

    def quiesce(self, base, n=40):
        """Lets the loop run until nothing is left of what was run; how it is then"""
        loop = self.loop()
        for i in range(n):
            fds = monitors.fd_table()
            kids = monitors.children()
            if set(fds) == set(base) and not kids:
                break
            loop.run_until_complete(asyncio.sleep(0.001 * i))
        return {"fds_new": {str(k): v for k, v in fds.items() if k not in base},
                "fds_gone": [k for k in base if k not in fds],
                "fds_other": {str(k): [base[k], v] for k, v in fds.items() if k in base and base[k] != v},
                "kids": {str(k): list(v) for k, v in kids.items()}}


class Stdio(object):
    """Standard out (a file) and standard in of the shell during a case"""

    def __init__(self, ctx, out, stdin):
        self.ctx = ctx
        self.out = out
        self.stdin = stdin

    def __enter__(self):
        sys.stdout.flush()
        self.save = [os.dup(0), os.dup(1)]
        if self.out:
            fd = os.open(self.ctx.path("stdout"), os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o666)
            os.dup2(fd, 1)
            os.close(fd)
        if self.stdin is not None:
            with open(self.ctx.path("stdin"), "wb") as f:
                f.write(self.stdin)
            fd = os.open(self.ctx.path("stdin"), os.O_RDONLY)
            os.dup2(fd, 0)
            os.close(fd)
        return self

    def __exit__(self, *a):
        sys.stdout.flush()
        os.dup2(self.save[0], 0)
        os.dup2(self.save[1], 1)
        for fd in self.save:
            REAL["close"](fd)

    def data(self):
        sys.stdout.flush()
        with open(self.ctx.path("stdout"), "rb") as f:
            return f.read()


def part_id(r, isproc):
    # What a subshell is of comes before its own
    ids = (PIPE_ID if isproc else FN_ID).findall(r)
    return ids[-1 if isproc else 0] if ids else None


def cleanup_children():
    loop = asyncio.get_event_loop()
    for i in range(100):
        kids = monitors.children()
        if not kids:
            return
        for pid, (st, name) in kids.items():
            if st != "Z":
                try:
                    REAL["kill"](pid, signal.SIGKILL)
                except OSError:
                    pass
        if i < 20:
            loop.run_until_complete(asyncio.sleep(0.01))
        else:
            try:
                while REAL["waitpid"](-1, os.WNOHANG)[0]:
                    pass
            except OSError:
                pass
            time.sleep(0.01)


def run(job, outfd):
    def send(msg):
        data = json.dumps(msg).encode() + b"\n"
        while data:
            n = REAL["write"](outfd, data)
            data = data[n:]

    M.leakfile = os.path.join(job["dir"], "leaked")
    atexit.register(monitors.returned_in_child, "atexit")
    mod = importlib.import_module("vf.scn.%s" % job["prop"].lower())

    def loop_errors(loop, context):
        if REAL["getpid"]() == monitors.MAIN:
            e = context.get("exception")
            M.loop_errors.append("%s: %s" % (context.get("message"), "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-1500:] if e else ""))
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(loop_errors)
    loop.run_until_complete(asyncio.sleep(0))
    for no, case in job["cases"]:
        send(["start", no])
        M.reset(case["seed"], case.get("delays", {}))
        M.badkills = []
        if os.path.exists(M.leakfile):
            os.unlink(M.leakfile)
        res = {}
        try:
            ctx = Ctx(job, no, case)
            base = monitors.fd_table()
            tmp = set(os.listdir(os.environ["TMPDIR"]))
            cwd = os.getcwd()
            environ = dict(os.environ)
            obs = getattr(mod, case["scn"])(ctx, **case["p"])
            monitors.returned_in_child("worker")
            res["obs"] = obs
            if not case.get("noq"):
                res["end"] = ctx.quiesce(base)
                res["end"]["tmp"] = sorted(set(os.listdir(os.environ["TMPDIR"])) - tmp)
                um = os.umask(0)
                os.umask(um)
                res["end"]["same"] = [os.getcwd() == cwd, dict(os.environ) == environ, um == 0o022]
        except BaseException as e:
            monitors.returned_in_child("worker: %r" % e)
            res["error"] = traceback.format_exc()
            # Raised by the code under test, or by a mistake in the scenario?
            res["in_pieshell"] = [f.name for f in traceback.extract_tb(e.__traceback__)
                                  if "/pkg/pieshell/" in f.filename]
        res["mon"] = {"forks": len(M.forked), "reaped": len(M.reaped), "badkills": M.badkills,
                      "badclose": M.badclose, "loop_errors": M.loop_errors[:3],
                      "sig": " ".join("%s%d" % (e[0], e[1]) if e[0] in "frsck" else ("%s%d=%d" % e if os.environ.get("VF_TRACE") else e[0]) for e in M.events)[:3000],
                      "reads": M.nreads}
        if os.path.exists(M.leakfile):
            with open(M.leakfile) as f:
                res["leaked"] = f.read()
        send(["end", no, res])
        cleanup_children()
        os.chdir(job["dir"])
        for name in os.listdir(os.environ["TMPDIR"]):
            p = os.path.join(os.environ["TMPDIR"], name)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)
        try:
            default_env.running_pipelines.clear()
        except Exception:
            pass
    send(["bye", dict(M.counters)])
    sys.stdout.flush()
    REAL["_exit"](0)
