"""bashsource"""
import asyncio
import json
import os

import pieshell
from .. import monitors
from .c12 import hexenv


def sources(ctx, files, envs, calls):
    for name, content in files.items():
        os.makedirs(os.path.dirname(ctx.path(name)), exist_ok=True)
        with open(ctx.path(name), "wb") as f:
            f.write(bytes.fromhex(content))
    with open(ctx.path("infile"), "w") as f:
        f.write("from standard in\nmore\n")
    loop = ctx.loop()
    save = dict(os.environ)
    es = []
    unhex = lambda h: os.fsdecode(bytes.fromhex(h))
    for x in envs:
        vars = {unhex(k): unhex(v) for k, v in x["vars"].items()}
        if x["how"] == "own":
            ex = dict(os.environ, HOME=ctx.dir, **vars)
            es.append(pieshell.Environment(cwd=ctx.dir, exports=ex))
        else:
            os.environ["HOME"] = ctx.dir
            os.environ.update(vars)
            es.append(pieshell.Environment(cwd=ctx.dir))
    log = []

    def cmd(c):
        e = es[c["env"]]
        p = e.bashsource
        if c["args"]:
            p = p(*[ctx.arg(a, e) for a in c["args"]])
        # Not a pipe: whoever writes to that fails, if it is not read
        p = p | pieshell.Redirect("stdin", "infile")
        if c["how"] == "out":
            p = p | e.vh("cat")
        elif c["how"] == "group":
            p = p + e.vh("w:" + b"grouped\n".hex())
        elif c["how"] == "file":
            p = p | pieshell.Redirect("stdout", "out", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        return p
    try:
        log.append({"envs": [hexenv(e._exports) for e in es]})
        with ctx.stdio(True):
            for group in calls:
                entry = {"exc": []}
                ps = [cmd(c) for c in group]
                if len(ps) > 1:
                    async def main():
                        return await asyncio.gather(*[p.async_run_interactive() for p in ps], return_exceptions=True)
                    got = loop.run_until_complete(main())
                else:
                    try:
                        mode = group[0]["mode"]
                        if mode == "+":
                            +ps[0]
                        elif mode == "bytes":
                            entry["out"] = bytes(ps[0]).hex()
                        else:
                            async def main():
                                await ps[0]
                            loop.run_until_complete(main())
                        got = [None]
                    except Exception as e:
                        got = [e]
                for e in got:
                    entry["exc"].append(ctx.exc(e, False) if isinstance(e, BaseException) else None)
                entry["envs"] = [hexenv(e._exports) for e in es]
                entry["cwds"] = [e._cwd for e in es]
                log.append(entry)
            f = ctx.path("dumped")
            +es[0]._(os.path.join(os.environ["VF_BIN"], "vh"), "dump:" + f)
            with open(f, encoding="latin-1") as o:
                log.append({"child": json.load(o)["env"]})
    finally:
        os.environ.clear()
        os.environ.update(save)
    return {"log": log, "dir": ctx.dir}
