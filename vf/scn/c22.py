"""pieshell run from the command line"""
import base64
import os
import pickle
import subprocess

import pieshell


def listing(path):
    res = {}
    for d, ds, fs in os.walk(path):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.isfile(p):
                with open(p, "rb") as x:
                    res[os.path.relpath(p, path)] = x.read().hex()
    return res


def cli(ctx, files, config, argv, stdin, cwd, home="ok", node=None, env={}, dirs=()):
    ctx.loop()
    top = ctx.path("top")
    os.mkdir(top)
    for d in dirs:
        os.mkdir(os.path.join(top, d))
    for name, text in files.items():
        with open(os.path.join(top, name), "wb") as f:
            f.write(text.encode("utf-8", "surrogateescape"))
    os.mkdir(ctx.path("outs"))
    hdir = ctx.path("home")
    os.mkdir(hdir)
    if config is not None:
        os.mkdir(os.path.join(hdir, ".config"))
        if config != "dir":
            with open(os.path.join(hdir, ".config", "pieshell"), "wb") as f:
                f.write(config.encode("utf-8"))
    before = listing(hdir)
    if home == "readonly":
        os.chmod(hdir, 0o555)
    elif home == "missing":
        os.chmod(hdir, 0o555)
    argv = [a.replace("@D", top) for a in argv]
    if node is not None:
        p = ctx.build(node)
        argv = [a.replace("@PCMD", base64.b64encode(pickle.dumps(p)).decode()) for a in argv]
    log = ctx.path("log")
    with open(log, "w"):
        pass
    with open(ctx.path("in"), "wb") as f:
        f.write(bytes.fromhex(stdin))
    e = dict(os.environ, HOME=hdir + "/missing" if home == "missing" else hdir, VF_LOG=log, VF_TOP=top, TERM="xterm", **env)
    with open(ctx.path("in")) as i, open(ctx.path("cliout"), "wb") as o, open(ctx.path("clierr"), "wb") as x:
        try:
            r = subprocess.run(["pieshell"] + argv, stdin=i, stdout=o, stderr=x, cwd=os.path.join(top, cwd), env=e, timeout=40)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = "timeout"
    if home != "ok":
        os.chmod(hdir, 0o755)
    pkg = os.path.dirname(pieshell.__file__)
    with open(os.path.join(pkg, "resources", "default_config.pysh"), "rb") as f:
        default = f.read().hex()
    with open(log) as f:
        lines = f.read().splitlines()
    with open(ctx.path("clierr"), "rb") as f:
        err = f.read().decode("utf-8", "replace")
    with open(ctx.path("cliout"), "rb") as f:
        out = f.read().hex()
    outs = {}
    for n in os.listdir(ctx.path("outs")):
        with open(os.path.join(ctx.path("outs"), n)) as f:
            outs[n] = f.read()
    return {"code": code, "log": lines, "out": out, "err": err[-4000:], "home": listing(hdir), "before": before,
            "default": default, "top": top, "files": sorted(os.listdir(top)),
            "argv": argv, "outs": outs, "root": os.getuid() == 0}
