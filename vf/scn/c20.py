"""Pipelines, pickled and unpickled, here and elsewhere"""
import asyncio
import base64
import os
import pickle
import shutil
import subprocess
import sys

import pieshell
from . import common
from .. import monitors
from ..monitors import M, REAL


async def upper(stdin):
    async for line in stdin:
        yield line.upper()


async def number(stdin):
    n = 0
    async for line in stdin:
        yield "%d %s" % (n, line)
        n += 1


def items(stdin):
    return ["one", b"two", 3, None, [4]]


async def instead(stdin):
    async for line in stdin:
        pass
    for i in items(None):
        yield i


async def bad(stdin):
    async for line in stdin:
        yield line
    raise ValueError("bad")


FUNCTIONS = {"upper": upper, "number": number, "items": items, "instead": instead, "bad": bad}


def dumps(p, protocol):
    try:
        return pickle.dumps(p, protocol)
    except Exception as e:
        raise Unpicklable("pickling: %s: %s" % (type(e).__name__, e))


def loads(data):
    try:
        return pickle.loads(data)
    except Exception as e:
        raise Unpicklable("unpickling: %s: %s" % (type(e).__name__, e))


class Unpicklable(Exception):
    pass


def files(ctx, names):
    res = {}
    for n in names:
        path = ctx.path(n)
        if os.path.lexists(path):
            with open(path, "rb") as f:
                res[n] = f.read().hex()
            os.unlink(path)
    return res


def pickled(ctx, node, envs, hops, when, where, mode, stdin=None, out=(), dirs=(), protocol=None):
    loop = ctx.loop()
    for d in dirs:
        os.mkdir(ctx.path(d))
    remote = ctx.path("remote")
    os.mkdir(remote)
    os.environ["VF_REMOTE"] = remote
    os.environ["VF_SSHLOG"] = ctx.path("sshlog")
    os.environ["VF_LOCAL"] = "1"
    for e in envs:
        env = ctx.env(cwd=ctx.path(e["cwd"]), exports=dict(os.environ) if e["exports"] == "same" else {**ctx.env._exports, **e["exports"]} if e["exports"] is not None else None,
                      interactive=e.get("interactive", False))
        if e.get("redirect"):
            env | ctx.redirection(e["redirect"])
        ctx.envs[e["name"]] = env
    with open(ctx.path("input"), "wb") as f:
        f.write(b"input\nof files\n")
    obs = {"runs": []}

    def run(what, p, mode=mode):
        o = common.pl(ctx, p, mode, stdin)
        o["what"] = what
        o["files"] = files(ctx, out)
        o["cwds"] = [os.path.relpath(ctx.envs[e["name"]]._cwd, ctx.dir) for e in envs]
        for e in envs:      # cd in a pipeline is for good
            if not e.get("interactive"):
                ctx.envs[e["name"]]._cd(ctx.path(e["cwd"]))
        shutil.move(ctx.path("stdout"), ctx.path("stdout_%d" % len(obs["runs"])))
        obs["runs"].append(o)
        return o
    try:
        p = ctx.build(node)
        go = ctx.path("go")
        data = None
        if when == "new":
            data = dumps(p, protocol)
            text = pieshell.pipeline.base.pipeline_repr(p)
        if when in ("running", "other running"):
            # Not over yet
            if when == "running":
                rp = (p | ctx.env.vh("nop:X", "drain")).run()
            else:
                rp = ctx.env.vh("nop:X", "wait:" + go).run()
                for e in envs:
                    ctx.envs[e["name"]].vh("nop:X", "wait:" + go).run()
            data = dumps(p, protocol)
            text = pieshell.pipeline.base.pipeline_repr(p)
            with open(go, "w"):
                pass
            try:
                loop.run_until_complete(rp.wait())
            except pieshell.PipelineError:
                pass
            for i in range(200):
                if not any(ctx.envs[e["name"]].running_pipelines for e in envs):
                    break
                loop.run_until_complete(asyncio.sleep(0.002))
            files(ctx, out)
            for e in envs:
                if not e.get("interactive"):
                    ctx.envs[e["name"]]._cd(ctx.path(e["cwd"]))
        with open(go, "w"):
            pass
        run("original", p)
        if when == "ran":
            data = dumps(p, protocol)
            text = pieshell.pipeline.base.pipeline_repr(p)
        before = len(M.forked)
        for i in range(hops - 1):
            data = dumps(loads(data), protocol)
        copy = loads(data)
        obs["copy text"] = [text, pieshell.pipeline.base.pipeline_repr(copy)]
        data = dumps(copy, protocol)
        obs["run by pickling"] = len(M.forked) - before
        if where == "same":
            o = run("copy", copy)
            if when == "new":
                run("copy again", copy)
            else:
                run("original again", p)
        elif where == "cmd":
            # The command line
            with open(ctx.path("other_in"), "wb") as f:
                f.write(bytes.fromhex(stdin) if stdin is not None else b"")
            with open(ctx.path("other_in")) as i, open(ctx.path("other_out"), "wb") as o, open(ctx.path("other_err"), "wb") as e:
                env = dict(os.environ, ELSEWHERE="1")
                del env["VF_LOCAL"]
                r = subprocess.run(["pieshell", "--pcmd=" + base64.b64encode(data).decode("ascii")] + (["--no-startup"] if hops % 2 else []),
                                   stdin=i, stdout=o, stderr=e, cwd="/", env=env, timeout=30)
            with open(ctx.path("other_err"), "rb") as f:
                err = f.read()
            obs["runs"].append({"what": "other process", "code": r.returncode, "err": err.decode("utf-8", "replace")[-3000:],
                                "out": os.path.join(os.path.basename(ctx.dir), "other_out"), "files": files(ctx, out)})
        elif where == "remote":
            r = ctx.env(exports=dict(os.environ)).remote("-p", "22", "host", copy) | ctx.env.vh("nop:X", "cat")
            o = run("remote", r)
            with open(ctx.path("sshlog"), "rb") as f:
                obs["ssh"] = [a.decode()[:30] for a in f.read().split(b"\0")]
    except Unpicklable as e:
        obs["unpicklable"] = str(e)
    finally:
        for k in ("VF_REMOTE", "VF_SSHLOG", "VF_LOCAL"):
            del os.environ[k]
    return obs
