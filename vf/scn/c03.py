"""Arguments that wait for each other, besides what most properties do"""
import asyncio

from pieshell import environ
from .. import monitors
from .common import pl


def ends(ctx, args, stdin, after):
    """Functions get their end of file when the command has ended,
    whatever the other arguments, which wait for that, do"""
    env = ctx.env(interactive=False)
    loop = ctx.loop()
    inputs = {}
    ended = {}

    def function(name):
        ended[name] = loop.create_future()

        async def take(stdin):
            inputs[name] = []
            async for line in stdin:
                inputs[name].append(line)
            with open(ctx.path("ended-" + name), "w"):
                pass
            ended[name].set_result(None)
            if False:
                yield
        return take

    def generator(name):
        async def gen(stdin):
            async for line in stdin:
                pass
            await ended[name]
            done.append(name)
            if False:
                yield
        return gen

    def waiting(name):
        return env.vh("wait:" + ctx.path("ended-" + name), "ad:%s:%s" % (ctx.path("done"), name))

    done = []
    ops = ["cat"] if stdin is not None else []
    ops.append("mix")
    for a in args:
        if a[0] == "fn":
            ops += ["out:" + "".join(l + "\n" for l in a[2]).encode().hex(), function(a[1])]
        elif a[0] == "process":
            ops += ["skip", waiting(a[1])]
        elif a[0] == "pipe":
            ops += ["skip", waiting(a[1]) | env.vh("cat")]
        elif a[0] == "iterator":
            ops += ["skip", ["x"] | (env.vh("cat") | generator(a[1]))]
        else:
            ops += ["=" + a[1]]
    p = env.vh(*[environ.R(x) if isinstance(x, str) else x for x in ops])
    if stdin is not None:
        p = stdin | p
    if after:
        p = p | env.vh("cat")
    output = str(p).split("\n")
    try:
        with open(ctx.path("done")) as f:
            done += f.read().split()
    except FileNotFoundError:
        pass
    return {"output": output, "inputs": inputs, "done": sorted(done)}
