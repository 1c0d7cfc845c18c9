"""Builtins"""
import asyncio
import importlib
import os
import subprocess
import sys

import pieshell
from pieshell import Redirect, PIPE
from .. import monitors


class Calls(object):
    """What the builtins were run with"""
    def __init__(self):
        self.n = 0
        self.bad = []

    def check(self, cmd, redirects, sess, indentation):
        self.n += 1
        if not isinstance(redirects, pieshell.Redirects) or not {0, 1, 2} <= set(redirects.redirects):
            self.bad.append("redirects were %s" % (pieshell.standard_repr(redirects) if hasattr(pieshell, "standard_repr") else type(redirects),))
        if sess is None or not isinstance(indentation, str) or indentation.strip():
            self.bad.append("sess %r, indentation %r" % (type(sess), indentation))
        if not isinstance(cmd._env, pieshell.Environment):
            self.bad.append("no environment: %s" % (type(cmd._env),))


def shadow_class(kind, calls, name):
    """A builtin that runs the program with the same name, as README says"""
    def begin(self, redirects, sess, indentation):
        monitors.returned_in_child("builtin")
        calls.check(self, redirects, sess, indentation)

    if kind == "plain":
        class Shadow(pieshell.Builtin):
            """Builtin"""
            def _run(self, redirects, sess, indentation=""):
                begin(self, redirects, sess, indentation)
                self._cmd = pieshell.Command(self._env, self._arg)
                return self._cmd._run(redirects, sess, indentation)
    elif kind == "keep":
        class Shadow(pieshell.Builtin):
            def _run(self, redirects, sess, indentation=""):
                begin(self, redirects, sess, indentation)
                self._cmd = pieshell.Command(self._env, self._arg)
                res = self._cmd._run(redirects, sess, indentation)
                self._redirects = self._cmd._redirects
                return res
    elif kind == "call":
        class Shadow(pieshell.Builtin):
            def _run(self, redirects, sess, indentation=""):
                begin(self, redirects, sess, indentation)
                self._cmd = pieshell.Command(self._env, self._arg[:1])(*self._arg[1:])
                return self._cmd._run(redirects, sess, indentation)
    elif kind == "nested":
        class Inner(pieshell.Builtin):
            def _run(self, redirects, sess, indentation=""):
                begin(self, redirects, sess, indentation)
                self._cmd = pieshell.Command(self._env, [name] + self._arg[1:])
                return self._cmd._run(redirects, sess, indentation)
        pieshell.BuiltinRegistry.register(Inner, "inner-" + name)

        class Shadow(pieshell.Builtin):
            def _run(self, redirects, sess, indentation=""):
                begin(self, redirects, sess, indentation)
                self._cmd = getattr(self._env, "inner-" + name)(*self._arg[1:])
                return self._cmd._run(redirects, sess, indentation)
    elif kind == "redirect":
        class Shadow(pieshell.Builtin):
            def _run(self, redirects, sess, indentation=""):
                begin(self, redirects, sess, indentation)
                self._cmd = pieshell.CmdRedirect(self._env, pieshell.Command(self._env, self._arg), pieshell.Redirects())
                return self._cmd._run(redirects, sess, indentation)
    else:
        raise ValueError(kind)
    return Shadow


def replaced_class(calls):
    class Replaced(pieshell.Builtin):
        def _run(self, redirects, sess, indentation=""):
            calls.bad.append("run, but was replaced by another")
            raise ValueError("Replaced by another")
    return Replaced


class registered(object):
    def __enter__(self):
        self.before = dict(pieshell.BuiltinRegistry.builtins)

    def __exit__(self, *args):
        pieshell.BuiltinRegistry.builtins.clear()
        pieshell.BuiltinRegistry.builtins.update(self.before)


def shadow(ctx, of, scn, p, kinds, again={}):
    """What another property does, with builtins instead of the programs"""
    calls = Calls()
    mod = importlib.import_module("vf.scn.%s" % of)
    with registered():
        for name, (kind, how) in kinds.items():
            for i in range(again.get(name, 0)):
                # Replaced by the next one registered
                pieshell.BuiltinRegistry.register(replaced_class(calls), name)
            cls = shadow_class(kind, calls, name)
            if how == "attr":
                cls.name = name
                pieshell.BuiltinRegistry.register(cls)
            else:
                if how == "other":
                    cls.name = "somethingelse"
                pieshell.BuiltinRegistry.register(cls, name)
        obs = getattr(mod, scn)(ctx, **p)
    return {"of": obs, "calls": calls.n, "bad": calls.bad[:3]}


def made(ctx, node, kind, mode, stdin=None, out=None):
    """A pipeline with a builtin that is a pipeline of its own"""
    from . import common
    calls = Calls()
    res = {}
    with registered():
        class Made(pieshell.Builtin):
            name = "made"

            def _run(self, redirects, sess, indentation=""):
                monitors.returned_in_child("builtin")
                calls.check(self, redirects, sess, indentation)
                self._env._exports["VF_MADE"] = "x" + self._env._exports.get("VF_MADE", "")
                self._cmd = ctx.build(inner[self._arg[1]], self._env)
                return self._cmd._run(redirects, sess, indentation)
        inner = {}
        ids = iter(range(100))

        def subst(n):
            if n[0] == "made":
                i = "m%d" % next(ids)
                inner[i] = subst(n[1])
                return ["c", ["made", i] + n[2], {"style": n[3]}]
            if n[0] in ("|", "+"):
                return [n[0], subst(n[1]), subst(n[2])]
            if n[0] == "c":
                return ["c", [dict(a, n=subst(a["n"])) if isinstance(a, dict) and "n" in a else a for a in n[1]], n[2]]
            return n
        pieshell.BuiltinRegistry.register(Made)
        p = ctx.build(subst(node))
        if out is not None:
            p = p | out.replace("@D", ctx.dir)
        try:
            obs = common.pl(ctx, p, mode, stdin)
        finally:
            made = ctx.env._exports.pop("VF_MADE", "")
        if out is not None:
            with open(out.replace("@D", ctx.dir), "rb") as f:
                obs["out"] = ctx.save(f.read())
    obs["made"] = len(made)
    obs["inner"] = len(inner)
    obs["calls"] = calls.n
    obs["bad"] = calls.bad[:3]
    return obs


def history(ctx, tree, steps, interactive, start):
    """cd and other builtins that run nothing, and commands"""
    top = ctx.path("top")
    os.mkdir(top)
    for e in tree:
        path = os.path.join(top, e[1])
        if e[0] == "d":
            os.makedirs(path, exist_ok=True)
        elif e[0] == "l":
            os.symlink(e[2].replace("@T", top), path)
        else:
            with open(path, "w"):
                pass
    home = os.environ["HOME"]
    realcwd = os.getcwd()
    os.environ["HOME"] = os.path.join(top, "home")
    loop = ctx.loop()
    env = ctx.env(cwd=os.path.join(top, start), interactive=False)
    if interactive:
        env._interactive = True
        os.chdir(os.path.join(top, start))
    other = ctx.env(cwd=top)
    res = []

    def arg(a):
        if isinstance(a, dict):
            (k, v), = a.items()
            v = v.replace("@T", top)
            if k == "R":
                return pieshell.R(v)
            import pathlib
            return pathlib.Path(v)
        return a.replace("@T", top)

    def build(s):
        k = s["cmd"]
        if k == "cd":
            args = [arg(a) for a in s["args"]]
            st = s["style"]
            if st == 0:
                return env.cd(*args)
            if st == 1:
                p = env.cd
                for a in args:
                    p = p(a)
                return p
            if st == 2:
                p = env.cd
                for a in args:
                    p = getattr(p, a) if isinstance(a, str) else p(a)
                return p
            return env._("cd", *args)
        if k == "clear":
            return env.clear_dir_cache
        if k == "bg":
            return env.bg(rp) if s.get("arg") and rp is not None else env.bg
        if k == "fg":
            return env.fg(rp) if s.get("arg") and rp is not None else env.fg
        raise ValueError(k)

    rp = None
    last = None
    try:
        for i, s in enumerate(steps):
            o = {}
            cmd = lambda *a: env.vh("nop:S%d" % i, *a)
            if s["cmd"] == "start":
                gate = os.path.join(top, "gate%d" % i)
                rp = (env.vh("nop:S%d" % i, "wait:" + gate, "x:%d" % s["code"]) | Redirect("stderr", "/dev/null")).run()
                rp.suspend()
                for n in range(1000):
                    if monitors.state(rp.processes[0].pid) == "T":
                        break
                    loop.run_until_complete(asyncio.sleep(0.005))
                last = (rp, gate)
                continue
            if s["cmd"] == "end":
                with open(last[1], "w"):
                    pass
                o["before"] = monitors.state(rp.processes[0].pid)
                try:
                    loop.run_until_complete(asyncio.wait_for(rp.wait(), 20))
                    o["ended"] = 0
                except pieshell.PipelineFailed:
                    o["ended"] = rp.exit_code
                res.append(o)
                rp = last = None
                env.__dict__.pop("last_pipeline", None)
                continue
            lastbefore = env.__dict__.get("last_pipeline")
            if s["cmd"] == "fg" and last and (s.get("arg") or lastbefore is rp):
                with open(last[1], "w"):
                    pass
            want = None
            try:
                p = build(s)
                m = s["mode"]
                if m == "+":
                    +p
                elif m == "bytes":
                    o["out"] = bytes(p).hex()
                elif m == "list":
                    o["out"] = b"".join(l.encode() for l in p).hex()
                elif m == "await":
                    async def main():
                        await p
                    loop.run_until_complete(main())
                elif m == "repr":
                    o["repr"] = type(p).__repr__(p)
                elif m == "run":
                    loop.run_until_complete(p.run().wait())
                elif m == "src":
                    o["out"] = bytes(p | cmd("cat", "w:" + b"B".hex())).hex()
                elif m == "dst":
                    o["out"] = bytes(cmd("e:no") | p).hex()
                elif m == "grouped":
                    o["out"] = bytes(p + cmd("w:" + b"G".hex())).hex()
                elif m == "group2":
                    o["out"] = bytes(cmd("w:" + b"H".hex()) + p).hex()
                elif m == "file":
                    path = os.path.join(top, "f%d" % i)
                    +(p | path)
                    o["file"] = os.path.getsize(path)
                elif m == "stdin":
                    +("/dev/null" | p)
                elif m == "iter":
                    o["out"] = b"".join(l.encode() for l in (["x"] | cmd("drain") | p)).hex()
                elif m == "string":
                    loop.run_until_complete((p | Redirect("stderr", pieshell.STRING)).run().wait())
                elif m == "tmp":
                    loop.run_until_complete((p | Redirect("stdout", pieshell.TMP)).run().wait())
                else:
                    raise ValueError(m)
            except (Exception, pieshell.PipelineInterrupted) as e:
                monitors.returned_in_child("except")
                o["exc"] = ctx.exc(e)
                o["oserror"] = isinstance(e, OSError)
            finally:
                loop.run_until_complete(asyncio.sleep(0))
            if rp is not None:
                o["state"] = monitors.state(rp.processes[0].pid) if rp.is_running else "-"
            after = env.__dict__.get("last_pipeline")
            o["last"] = ("same" if after is lastbefore else "changed")
            o["cwd"] = env._cwd
            o["real"] = os.getcwd()
            o["other"] = other._cwd == top
            # Where commands are run
            e2 = env(interactive=False) if interactive else env
            o["ran"] = bytes(e2.vh("nop:P", "cwd")).hex()
            if after is not env.__dict__.get("last_pipeline"):
                env.last_pipeline = after
                if after is None:
                    del env.__dict__["last_pipeline"]
            with open(os.path.join(top, "rel"), "w"):
                pass
            res.append(o)
            if s["cmd"] == "fg" and last:
                o["done"] = not rp.is_running
                if rp.is_running:
                    with open(last[1], "w"):
                        pass
                    loop.run_until_complete(asyncio.wait([asyncio.ensure_future(rp.wait())], timeout=20))
                rp = last = None
                env.__dict__.pop("last_pipeline", None)
    finally:
        os.chdir(realcwd)
        os.environ["HOME"] = home
        env._interactive = False
    return {"steps": res, "top": top, "realcwd": realcwd}


def entry(ctx, dists, code):
    """A process of its own, with packages that have builtins"""
    top = ctx.path("site")
    os.mkdir(top)
    for name, (entries, source) in dists.items():
        d = os.path.join(top, "%s-1.0.dist-info" % name)
        os.mkdir(d)
        with open(os.path.join(d, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n" % name)
        with open(os.path.join(d, "entry_points.txt"), "w") as f:
            f.write(entries)
        with open(os.path.join(top, name + ".py"), "w") as f:
            f.write(source)
    pkg = os.path.dirname(os.path.dirname(pieshell.__file__))
    e = dict(os.environ, PYTHONPATH=os.pathsep.join([top, pkg] + [p for p in os.environ.get("PYTHONPATH", "").split(os.pathsep) if p]))
    with open(os.path.join(top, "main.py"), "w") as f:
        f.write(code)
    r = subprocess.run([sys.executable, os.path.join(top, "main.py")], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       cwd=ctx.dir, env=e, timeout=60)
    return {"code": r.returncode, "out": r.stdout.hex(), "err": r.stderr.decode("utf-8", "replace")[-3000:]}
