"""Programs importing modules, some of them written as pysh"""
import builtins
import importlib
import os
import pathlib
import sys
import types

import pieshell
from ..monitors import M

LOG = []


def value(x, prefix):
    if isinstance(x, types.ModuleType):
        return ["module", x.__name__]
    if isinstance(x, pieshell.Pipeline):
        return ["pipeline"]
    if isinstance(x, (bytes, bytearray)):
        return ["b", bytes(x).hex()]
    if isinstance(x, (str, int, list, tuple, type(None))):
        return ["v", x]
    return ["other", str(type(x))]


def state(scope):
    env = dict.__getitem__(scope, "env")
    return {"cwd": env._cwd, "exports": dict(env._exports), "names": sorted(dict.keys(scope)), "functions": sorted(env._bashfunctions),
            "env": id(env), "scope": env._scope is scope, "environ": dict(os.environ),
            "default": [pieshell.env._cwd, dict(pieshell.env._exports)], "pieshell.env": id(pieshell.env)}


def load(ctx, files, dirs, path, exports, cwd, ops, prefix, scripts=None):
    ctx.loop()
    root = ctx.path("")
    for d in dirs:
        os.makedirs(ctx.path(d), exist_ok=True)

    def write(name, text):
        os.makedirs(os.path.dirname(ctx.path(name)), exist_ok=True)
        with open(ctx.path(name), "wb") as f:
            f.write(text.encode("latin-1") if text.startswith("\xff") else text.encode("utf-8", "surrogatepass"))
    for name, text in files.items():
        write(name, text)

    def entry(e):
        if "dir" in e:
            p = ctx.path(e["dir"]) if e["dir"] else root
            form = e.get("form", "str")
            if form == "slash":
                return p.rstrip("/") + "/"
            if form == "dots":
                return p.rstrip("/") + "/../" + os.path.basename(p.rstrip("/"))
            if form == "rel":
                return os.path.relpath(p)
            return p
        return {"empty": "", "bytes": b"/nonexistent", "none": None, "path": pathlib.Path("/nonexistent"), "int": 5, "file": ctx.path("afile"),
                "missing": ctx.path("missing"), "nul": "a\0b"}[e["odd"]]

    scope = pieshell.environ.envScope
    env = dict.__getitem__(scope, "env")
    saved = (list(sys.path), list(sys.modules), os.getcwd(), env._cwd, dict(env._exports), builtins.__dict__.get("c21_log"), dict(os.environ), list(sys.meta_path))
    with open(ctx.path("afile"), "w"):
        pass
    obs = []
    try:
        os.chdir(root)
        env._cwd = os.path.normpath(ctx.path(cwd))
        env._exports.update(exports)
        sys.path[:0] = [entry(e) for e in path]
        del LOG[:]
        builtins.c21_log = LOG.append
        builtins.ROOT_ = root.rstrip("/")
        for op in ops:
            os.chdir(root)
            del LOG[:]
            importlib.invalidate_caches()
            before = state(scope)
            forked = len(M.forked)
            o = {}
            ns = {}
            mod = lambda: sys.modules[op[1]]
            try:
                k = op[0]
                if k == "import":
                    form, name = op[2], op[1]
                    parent, _, tail = name.rpartition(".")
                    if form == "import":
                        exec("import " + name, ns)
                        o["value"] = value(ns[name.split(".")[0]], prefix)
                    elif form == "as":
                        exec("import %s as m" % name, ns)
                        o["value"] = value(ns["m"], prefix)
                    elif form == "importlib":
                        o["value"] = value(importlib.import_module(name), prefix)
                    elif form == "from":
                        exec("from %s import %s as m" % (parent, tail), ns)
                        o["value"] = value(ns["m"], prefix)
                    elif form == "attr":
                        exec("from %s import %s as a" % (name, op[3]), ns)
                        o["value"] = value(ns["a"], prefix)
                    elif form == "star":
                        exec("from %s import *" % name, ns)
                        ns.pop("__builtins__", None)
                        o["value"] = sorted([n, value(v, prefix)] for n, v in ns.items())
                    elif form == "pysh":
                        # By what is typed at the prompt
                        import code
                        inner = pieshell.EnvScope(env=env(interactive=False))
                        exec(compile("import %s as m" % name, "x", "exec"), inner)
                        o["value"] = value(dict.__getitem__(inner, "m"), prefix)
                    # The same module from anywhere
                    if name in sys.modules:
                        o["same"] = importlib.import_module(name) is sys.modules[name]
                elif k == "reload":
                    if op[1] in sys.modules:
                        m = mod()
                        o["same"] = importlib.reload(m) is m
                    else:
                        o["skip"] = True
                elif k == "forget":
                    for n in list(sys.modules):
                        if (n + ".").startswith(op[1] + "."):
                            del sys.modules[n]
                elif k == "write":
                    write(op[1], op[2])
                elif k == "rm":
                    if os.path.exists(ctx.path(op[1])):
                        os.unlink(ctx.path(op[1]))
                elif k == "set":
                    if op[1] in sys.modules:
                        setattr(mod(), op[2], op[3])
                elif k == "get":
                    if op[1] in sys.modules:
                        o["value"] = value(getattr(mod(), op[2]), prefix)
                elif k == "dir":
                    if op[1] in sys.modules:
                        o["value"] = [n for n in dir(mod()) if not n.startswith("_")]
                elif k == "call":
                    if op[1] in sys.modules:
                        o["value"] = value(getattr(mod(), op[2])(), prefix)
                elif k == "cd":
                    env._cwd = ctx.path(op[1])
                    before = state(scope)
                elif k == "export":
                    env._exports[op[1]] = op[2]
                    before = state(scope)
                elif k == "name":
                    if op[1] in sys.modules:
                        m = mod()
                        o["value"] = [m.__name__, getattr(m, op[2]).__module__ if op[2] else None]
            except ImportError as e:
                o["exc"] = "ImportError"
                o["text"] = str(e)[:300]
            except SystemExit as e:
                o["exc"] = "SystemExit"
            except UnicodeDecodeError as e:
                o["exc"] = "UnicodeDecodeError"
            except SyntaxError as e:
                o["exc"] = "SyntaxError"
            except AttributeError as e:
                o["exc"] = "AttributeError"
                o["text"] = str(e)[:300]
            os.chdir(root)
            o["log"] = list(LOG)
            o["forked"] = len(M.forked) - forked
            after = state(scope)
            o["changed"] = {x: [str(before[x])[:500], str(after[x])[:500]] for x in before if before[x] != after[x]}
            o["modules"] = sorted(n for n in sys.modules if n.startswith(prefix))
            obs.append(o)
    finally:
        sys.path[:] = saved[0]
        for n in list(sys.modules):
            if n not in saved[1] and n.startswith(prefix):
                del sys.modules[n]
        os.chdir(saved[2])
        env._cwd = saved[3]
        env._exports.clear()
        env._exports.update(saved[4])
        del builtins.c21_log, builtins.ROOT_
        sys.path_importer_cache.clear()
        importlib.invalidate_caches()
    return {"ops": obs, "root": root}
