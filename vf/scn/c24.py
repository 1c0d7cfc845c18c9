"""Listing what could be run, and what could be added to it"""
import os
import shutil

import pieshell
from .. import monitors

COMPLETE = {
    "BASH_FUNC__completion_loader%%": "() {  complete -F _vf \"$1\"\n}",
    "BASH_FUNC__vf%%": "() {  { printf '%s\\0' \"$COMP_CWORD\" \"$PWD\" \"${VF_X-unset}\" \"${COMP_WORDS[@]}\"; } > \"$VF_COMP\";"
                       " mapfile -t COMPREPLY < \"$VF_WORDS\"\n}"}


def getcwd():
    try:
        return os.getcwd()
    except OSError:
        return None # It has been removed


class Magic(pieshell.Builtin):
    """Registered by the case"""
    def _run(self, redirects, sess, indentation=""):
        return []

    def __dir__(self):
        return ["light", "dark"]


def listing(ctx, dirs, ops):
    loop = ctx.loop()
    top = ctx.path("top")
    os.mkdir(top)
    marks = ctx.path("marks")
    tools = ctx.path("tools")
    os.mkdir(tools)
    os.symlink(os.path.join(os.path.dirname(pieshell.__file__), "resources", "get_completions"), os.path.join(tools, "get_completions"))
    for n in ("bash", "awk", "sort"):
        os.symlink(shutil.which(n), os.path.join(tools, n))
    base = {k: v for k, v in os.environ.items() if k != "PATH"}
    base.update(VF_COMP=ctx.path("comp"), VF_WORDS=ctx.path("words"), VF_MARKS=marks)
    base.update(COMPLETE)
    with open(marks, "w"):
        pass
    def at(p):
        return p.replace("@T", top).replace("@B", tools)
    for d in dirs:
        os.mkdir(os.path.join(top, d))
    envs = {}
    scopes = {}
    obs = []
    hidden = []
    registered = []
    start = os.getcwd()
    try:
        with ctx.stdio(True, b""):
            for op in ops:
                k = op[0]
                o = {}
                obs.append(o)
                n = len(monitors.M.forked)
                cwds = {i: (e._cwd, dict(e._exports)) for i, e in envs.items()}
                wd = getcwd()
                o["nowd"] = wd is None
                try:
                    if k == "env":
                        envs[op[1]] = pieshell.environ.Environment(cwd=at(op[2]), exports=dict(base, PATH=tools), interactive=op[3])
                    elif k == "copy":
                        envs[op[1]] = envs[op[2]]()
                    elif k == "path":
                        ex = envs[op[1]]._exports
                        if op[2] is None:
                            ex.pop("PATH", None)
                        else:
                            ex["PATH"] = at(op[2])
                    elif k == "export":
                        envs[op[1]]._exports[op[2]] = op[3]
                    elif k == "cd":
                        envs[op[1]]._cd(at(op[2]))
                    elif k == "file":
                        with open(at(op[1]), "w") as f:
                            f.write("#!/bin/sh\necho \"$0\" \"$@\" >> %s\n" % marks)
                        os.chmod(at(op[1]), op[2])
                    elif k == "mkdir":
                        os.mkdir(at(op[1]))
                    elif k == "link":
                        os.symlink(at(op[2]), at(op[1]))
                    elif k == "rm":
                        p = at(op[1])
                        if os.path.isdir(p) and not os.path.islink(p):
                            os.rmdir(p)
                        else:
                            os.unlink(p)
                    elif k == "hide":
                        os.chmod(at(op[1]), 0)
                        hidden.append(at(op[1]))
                    elif k == "register":
                        pieshell.pipeline.BuiltinRegistry.register(Magic, op[1])
                        registered.append(op[1])
                    elif k == "clear":
                        c = envs[op[1]].clear_dir_cache
                        if op[2] == "run":
                            c.run_interactive()
                        elif op[2] == "args":
                            +c("now")
                        else:
                            str(c) if op[2] == "str" else ~c
                    elif k == "dir":
                        o["dir"] = dir(envs[op[1]])
                    elif k == "changing":
                        # What is done to a list that was given is no matter
                        d = dir(envs[op[1]])
                        del d[:]
                        d = envs[op[1]].__dir__()
                        o["dir"] = list(d)
                    elif k == "cddir":
                        p = envs[op[1]].cd
                        if op[3] == "attr":
                            for a in op[2]:
                                p = getattr(p, at(a))
                        elif op[2]:
                            p = p(*[at(a) for a in op[2]])
                        o["dir"] = dir(p)
                    elif k == "builtin":
                        o["dir"] = dir(getattr(envs[op[1]], op[2]))
                    elif k == "complete":
                        e = envs[op[1]]
                        p = pieshell.pipeline.command.BaseCommand(e, [at(op[2])])
                        for how, a in op[3]:
                            if how == "attr":
                                p = getattr(p, a)
                            elif how == "R":
                                p = p(pieshell.environ.R(a))
                            elif how == "opts":
                                p = p(**a)
                            elif how == "pipe":
                                p = p(pieshell.pipeline.command.BaseCommand(e, [at(a)]))
                            else:
                                p = p(at(a))
                        with open(ctx.path("words"), "w") as f:
                            f.write("".join(w + "\n" for w in op[4]))
                        with open(ctx.path("comp"), "wb") as f:
                            pass
                        o["dir"] = dir(p)
                        with open(ctx.path("comp"), "rb") as f:
                            o["comp"] = f.read().hex()
                    elif k == "parts":
                        e = envs[op[1]]
                        a, b = [pieshell.pipeline.command.BaseCommand(e, [at(x)]) for x in op[2:4]]
                        o["dir"] = dir(a | b if op[4] == "pipe" else a + b)
                    elif k == "scope":
                        s = scopes[op[1]] = pieshell.environ.EnvScope(env=envs[op[2]])
                        s["env"] = envs[op[2]]
                    elif k == "assign":
                        scopes[op[1]][op[2]] = "value of %s" % op[2]
                    elif k == "names":
                        res = []
                        s = scopes[op[1]]
                        dict.__setitem__(s, "put_", res.extend)
                        exec("put_(dir())", s)
                        dict.pop(s, "put_")
                        o["dir"] = res
                    elif k == "tab":
                        import readline
                        from pieshell import jedi_completion
                        got = []
                        old = readline.set_completer
                        readline.set_completer = got.append
                        try:
                            jedi_completion.setup_readline([scopes[op[1]]])
                        finally:
                            readline.set_completer = old
                        o["dir"] = []
                        text = at(op[2])
                        while len(o["dir"]) < 8000:
                            m = got[-1](text, len(o["dir"]))
                            if m is None:
                                break
                            o["dir"].append(m)
                        if op[3] != "all":
                            o["dir"] = [x for x in o["dir"] if not x[len(text):].startswith("_")]
                except Exception as e:
                    if not isinstance(e, OSError):
                        raise
                    o["exc"] = type(e).__name__
                    if k in ("env", "copy"):
                        o.update(forks=0, changed=[], wd=False)
                        break
                o["forks"] = len(monitors.M.forked) - n
                o["changed"] = ([] if k in ("path", "export", "cd", "assign") else
                                [i for i, v in cwds.items() if (envs[i]._cwd, dict(envs[i]._exports)) != v])
                o["wd"] = getcwd() != wd and k != "rm"
                if k in ("dir", "changing", "cddir", "builtin", "complete", "parts", "names", "tab", "clear"):
                    with open(marks) as f:
                        o["ran"] = f.read()
    finally:
        os.chdir(start)
        for p in hidden:
            try:
                os.chmod(p, 0o755)
            except OSError:
                pass
        for n in registered:
            pieshell.pipeline.BuiltinRegistry.builtins.pop(n, None)
    bs = {}
    for d in os.defpath.split(":"):
        if d:
            bs[d] = sorted(os.listdir(d)) if os.path.isdir(d) else None
    return {"ops": obs, "top": top, "tools": tools, "listed": sorted(os.listdir(tools)), "builtins": sorted(pieshell.pipeline.BuiltinRegistry.builtins), "defpath": os.defpath, "system": bs,
            "root": os.getuid() == 0}
