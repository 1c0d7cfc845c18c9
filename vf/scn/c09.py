"""Captures in temporary files and strings"""
import asyncio
import os

import pieshell
from pieshell import Redirect, PIPE
from .. import monitors


def caps(ctx, nodes, runs, way, remove, read=None, stdin=None):
    """Runs pipelines, each runs times, at the same time or one after
    the other"""
    obs = {"runs": [], "tmpdir": os.environ["TMPDIR"]}
    loop = ctx.loop()
    rps = []

    def look(ni, rp):
        d = ctx.describe(rp, False)
        for p, part in zip(rp.processes, d["parts"]):
            part["content"] = {str(fd): [type(v).__name__, ctx.save(v.encode("utf-8", "surrogatepass"))] for fd, v in p.output_content.items()}
            part["files"] = {}
            for fd, f in p.output_files.items():
                try:
                    with open(f.path, "rb") as o:
                        part["files"][str(fd)] = [f.path, ctx.save(o.read())]
                except OSError as e:
                    part["files"][str(fd)] = [f.path, None]
        obs["runs"].append([ni, d["parts"]])

    async def one(p):
        rp = p.run([Redirect("stdout", PIPE)] if read else [])
        if read:
            try:
                async for b in rp.iterbytes():
                    pass
            except pieshell.PipelineFailed:
                pass
        try:
            await rp
        except pieshell.PipelineFailed:
            pass
        return rp

    with ctx.stdio(True):
        ps = [ctx.build(n) for n in nodes]
        order = [(i, p) for r in range(runs) for i, p in enumerate(ps)]
        if way == "seq":
            for i, p in order:
                try:
                    rp = +p
                except pieshell.PipelineFailed as e:
                    rp = e.pipeline
                monitors.returned_in_child("run")
                rps.append((i, rp))
                look(i, rp)
        else:
            async def main():
                return await asyncio.gather(*[one(p) for i, p in order])
            res = loop.run_until_complete(main())
            monitors.returned_in_child("run")
            rps = [(i, rp) for (i, p), rp in zip(order, res)]
            for i, rp in rps:
                look(i, rp)
        # Still there, and still the same
        obs["kept"] = sorted({f.path for i, rp in rps for x in rp.processes for f in x.output_files.values() if os.path.exists(f.path)})
        obs["tmp"] = sorted(os.path.join(obs["tmpdir"], n) for n in os.listdir(obs["tmpdir"]))
        obs["after"] = []
        if remove:
            left = {f.path for i, rp in rps for x in rp.processes for f in x.output_files.values()}
            for i, rp in rps:
                rp.remove_output_files()
                left -= {f.path for x in rp.processes for f in x.output_files.values()}
                obs["after"].append([sorted(left), sorted(os.path.join(obs["tmpdir"], n) for n in os.listdir(obs["tmpdir"]))])
    return obs
