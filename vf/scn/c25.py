import os
from . import common


def nostart(ctx, setup, **p):
    with open(ctx.path("noexec"), "w") as f:
        f.write("#!/bin/sh\necho ran\n")
    os.mkdir(ctx.path("sub"))
    with open(ctx.path("ro"), "w") as f:
        f.write("")
    os.chmod(ctx.path("ro"), 0o444)
    os.symlink("loop", ctx.path("loop"))
    with open(ctx.path("garbage"), "wb") as f:
        f.write(b"\x00\x01\x02garbage")
    os.chmod(ctx.path("garbage"), 0o755)
    with open(ctx.path("interp"), "w") as f:
        f.write("#!/vf/no/such/interpreter\n")
    os.chmod(ctx.path("interp"), 0o755)
    return common.pl(ctx, **p)
