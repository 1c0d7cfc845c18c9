"""The reference model: what pipelines of vh commands, Python iterators and
functions have to do.  Used by the judges, in CPython; knows nothing about
pieshell but the meaning of its syntax.

A pipeline is described by (JSON lists):

  ["c", [ARG...], {opts}]         a command; ARG is a string, or one of
       {"n": NODE}                  a pipeline, iterator or function
       {"kw": {NAME: ARG|bool}}     named parameters
       {"R": str}, {"v": value}
  ["it", KIND, [ITEM...], ID]     an iterator
  ["fn", OP, {params}, ID]        a function
  ["|", A, B], ["+", A, B]
  ["r", A, REDIRECT]              a redirect
  ["ref", NAME, A]                A, the same object wherever it is
  ["sub", A, ID]                  subshell(A)

Every command has the argument nop:ID, by which it is known in results.
"""
import hashlib

M64 = (1 << 64) - 1


def prng(seed, n):
    x = (seed * 2654435761 + 12345) & M64
    res = bytearray()
    for i in range(n):
        x = (x * 6364136223846793005 + 1442695040888963407) & M64
        res.append(x >> 56)
    return bytes(res)


_prng_cache = {}


def cprng(seed, n):
    k = (seed, n)
    if k not in _prng_cache:
        if len(_prng_cache) > 200:
            _prng_cache.clear()
        _prng_cache[k] = prng(seed, n)
    return _prng_cache[k]


def fnv(data):
    h = 14695981039346656037
    for b in data:
        h = ((h ^ b) * 1099511628211) & M64
    return h


def gl(tag, n, length):
    res = []
    for k in range(n):
        o = "%s-%d-" % (tag, k)
        j = 0
        while j < length and len(o) < 4000:
            o += chr(97 + (k + j) % 26)
            j += 1
        res.append(o.encode() + b"\n")
    return b"".join(res)


def lines_of(data):
    """What is iterated over when data is read by line"""
    ls = data.split(b"\n")
    if ls[-1] == b"":
        ls.pop()
    return ls


UP = bytes(c - 32 if 97 <= c <= 122 else c for c in range(256))


class Part(object):
    """What is known about one process or function of a pipeline"""

    def __init__(self, id, kind, code=0, err=b"", exc=None, may=False):
        self.id = id
        self.kind = kind      # "c" or "fn"
        self.code = code      # exit status
        self.err = err        # written to standard err
        self.exc = exc        # name of exception raised
        self.may = may        # can fail, depending on timing, from a pipe closed early
        self.files = {}
        self.input = None
        self.started = True
        self.anon = False     # can't be told by its representation
        self.sharing = None   # the commands writing standard err to the same place, if several

    @property
    def failed(self):
        return self.code != 0 or self.exc is not None


class Out(object):
    """Output: one of, or an interleaving by line of, parts"""

    def __init__(self, *parts):
        self.parts = [p for p in parts]

    @property
    def data(self):
        assert len(self.parts) <= 1
        return self.parts[0] if self.parts else b""

    def map(self, fn):
        return Out(*[fn(p) for p in self.parts])

    def __add__(self, other):
        return Out(*(self.parts + other.parts))


class Result(object):
    def __init__(self):
        self.parts = []
        self.early = False
        self.last = None


def item_bytes(item):
    """What an item is written as; None for nothing"""
    (k, v), = item.items()
    if k == "s":
        return v.encode("utf-8", "surrogateescape")
    if k == "b":
        return bytes.fromhex(v)
    if k == "big":
        return cprng(v[0], v[1]).replace(b"\n", b"_")
    if k == "bigs":
        return ("\u00e5" * v).encode("utf-8")
    if k == "i":
        return str(v).encode()
    if k == "f":
        return repr(float(v)).encode()
    if k == "l":
        return str(v).encode("utf-8")
    if k == "obj":
        return ("obj<%s>" % v).encode("utf-8")
    if k == "none":
        return None
    if k == "co":
        return item_bytes(v)
    raise ValueError(k)


def items_bytes(items):
    return b"".join(b + b"\n" for b in (item_bytes(i) for i in items) if b is not None)


def run_ops(args, stdin, part, argdata):
    """A vh command.  stdin is bytes or None; argdata gives the content of
    arguments that are nodes.  Returns (stdout, consumed all of stdin,
    {index of function argument: data written})"""
    out = []
    consumed = False
    written = {}
    rest = stdin or b""
    i = 1
    while i < len(args):
        a = args[i]
        if not isinstance(a, str):
            raise ValueError(a)
        f = a.split(":")
        op = f[0]

        def N(k, d=0):
            return int(f[k]) if len(f) > k and f[k] else d
        if op == "w":
            out.append(bytes.fromhex(f[1]))
        elif op == "e":
            part.err += bytes.fromhex(f[1])
        elif op == "wf":
            part.files.setdefault(N(1), []).append(bytes.fromhex(f[2]))
        elif op == "g":
            out.append(cprng(N(1), N(2)))
        elif op == "ge":
            part.err += cprng(N(1), N(2))
        elif op == "gl":
            out.append(gl(f[1], N(2), N(3)))
        elif op in ("cat", "lcat"):
            out.append(rest)
            rest, consumed = b"", True
        elif op in ("up", "lup"):
            out.append(rest.translate(UP))
            rest, consumed = b"", True
        elif op == "xor":
            k = N(3)
            out.append(bytes(b ^ k for b in rest))
            rest, consumed = b"", True
        elif op == "rev":
            out.append(rest[::-1])
            rest, consumed = b"", True
        elif op == "pre":
            pre = bytes.fromhex(f[1])
            if rest:
                body = rest[:-1] if rest.endswith(b"\n") else rest
                out.append(pre + body.replace(b"\n", b"\n" + pre) + (b"\n" if rest.endswith(b"\n") else b""))
            rest, consumed = b"", True
        elif op == "cnt":
            out.append(b"%d %016x\n" % (len(rest), fnv(rest)))
            rest, consumed = b"", True
        elif op == "head":
            out.append(rest[:N(1)])
            rest = rest[N(1):]
        elif op == "drain":
            rest, consumed = b"", True
        elif op == "args":
            for j in range(i + 1, len(args)):
                v = args[j]
                if isinstance(v, str) and v.startswith("="):
                    out.append(v[1:].encode("utf-8", "surrogateescape") + b"\n")
                else:
                    out.append(argdata[j])
            i = len(args)
        elif op == "mix":
            j = i + 1
            while j < len(args):
                v = args[j]
                if v.startswith("="):
                    out.append(v[1:].encode("utf-8", "surrogateescape") + b"\n")
                    j += 1
                    continue
                if v == "in":
                    out.append(argdata[j + 1])
                else:
                    written[j + 1] = bytes.fromhex(v[4:])
                j += 2
            i = len(args)
        elif op == "tee":
            out.append(rest)
            for j in range(i + 1, len(args)):
                written[j] = rest
            rest, consumed = b"", True
            i = len(args)
        elif op == "x":
            part.code = N(1)
            break
        elif op == "k":
            part.code = N(1)
            break
        elif op in ("sl", "nop", "pid", "wait", "ad", "dump", "ign"):
            pass
        elif op == "cl":
            pass
        elif op == "sdump":
            break
        else:
            raise ValueError(op)
        i += 1
    return b"".join(out), consumed, written


def cmd_id(args):
    for a in args:
        if isinstance(a, str) and a.startswith("nop:"):
            return a[4:]
    return None


def flat_args(args):
    """Arguments, with named parameters as arguments of their own"""
    res = []
    for a in args:
        if isinstance(a, dict) and "kw" in a:
            for name, v in a["kw"].items():
                if v is False:
                    continue
                if v is True:
                    res.append("--" + name.replace("_", "-"))
                elif isinstance(v, str):
                    res.append("--%s=%s" % (name.replace("_", "-"), v))
                else:
                    res.append(v)
        elif isinstance(a, dict) and "R" in a:
            res.append(a["R"])
        else:
            res.append(a)
    return res


def fn_run(op, params, data, part):
    """A function given data as input. Returns (bytes written, read it all)"""
    ls = lines_of(data)
    if op == "up":
        return b"".join(l.decode("utf-8", "surrogateescape").upper().encode("utf-8", "surrogateescape") + b"\n" for l in ls), True
    if op == "id":
        return b"".join(l + b"\n" for l in ls), True
    if op == "num":
        return b"".join(b"%d:%s\n" % (i, l) for i, l in enumerate(ls)), True
    if op == "dup":
        return b"".join(l + b"\n" + l + b"\n" for l in ls), True
    if op == "odd":     # None for every other line
        return b"".join(l + b"\n" for l in ls[1::2]), True
    if op == "lag":     # everything is yielded after all has been read
        return b"".join(l + b"\n" for l in ls), True
    if op == "cnt":
        return b"%d %d\n" % (len(ls), sum(map(len, ls))), True
    if op == "take":
        n = params["n"]
        return b"".join(l + b"\n" for l in ls[:n]), len(ls) < n
    if op == "ignore":
        return items_bytes(params["items"]), False
    if op == "items":   # reads all of its input, then yields items
        return items_bytes(params["items"]), True
    if op == "sink":
        return b"", True
    if op == "effect":
        if "print" in params["what"]:
            part.prints = b"printed by a subshell\n"
        return b"".join(l + b"\n" for l in ls) + b"effects\n", True
    if op == "cmd":
        inner = Result()
        out, _ = run(params["node"], None, inner)
        bad = any(p.failed for p in inner.parts)
        if bad:
            part.exc = "PipelineFailed"
        return b"".join(l + b"\n" for l in lines_of(out.data)), True
    if op == "die":
        part.exc = params["exc"]
        part.died = True
        return b"", bool(params.get("read"))
    if op == "gate":
        part.exc = params.get("exc")
        return b"" if part.exc else items_bytes(params["items"]), bool(params.get("read"))
    if op == "raise":
        n = params["n"]
        if n < len(ls) or (params.get("always") and n <= len(ls)):
            part.exc = params["exc"]
            return b"".join(l + b"\n" for l in ls[:n]), False
        return b"".join(l + b"\n" for l in ls), True
    raise ValueError(op)


ANON = ("map", "tuple", "plainlist")


def run(node, stdin, res, sink=True):
    """Runs a node on stdin (Out, or None for an empty one).  Returns (Out,
    whether it reads all of stdin).  res collects the parts."""
    k = node[0]
    if k == "c":
        return run_cmd(node, stdin, res)
    if k == "it":
        part = Part(node[3], "fn")
        part.anon = node[1] in ANON
        res.parts.append(part)
        items = node[2]
        for i, it in enumerate(items):
            if "raise" in it:
                part.exc = it["raise"]
                items = items[:i]
                break
        data = items_bytes(items)
        return Out(data), False
    if k == "fn":
        part = Part(node[3], "fn")
        res.parts.append(part)
        if node[2].get("nostart"):
            part.exc = node[2]["nostart"]
            return Out(b""), False
        alls = []

        def one(data):
            o, a = fn_run(node[1], node[2], data, part)
            alls.append(a)
            part.input = data
            part.all = a
            return o
        out = (stdin or Out(b"")).map(one)
        if len(out.parts) > 1:
            part.input = None
        return out, all(alls)
    if k == "|":
        n0 = len(res.parts)
        out, all1 = run(node[1], stdin, res)
        n1 = len(res.parts)
        out2, all2 = run(node[2], out, res)
        if not all2:
            # What feeds it can be told that nobody reads
            for p in res.parts[n0:n1]:
                p.may = True
        return out2, all1 and all2
    if k == "+":
        n0 = len(res.parts)
        out, all1 = run(node[1], stdin, res)
        out2, all2 = run(node[2], stdin, res)
        share(res.parts[n0:])
        if node[1][0] == "b":
            return out2, False
        return out + out2, False
    if k == "b":
        return Out(b""), False
    if k == "sub":
        return run_sub(node, stdin, res)
    if k == "r":
        return run(node[1], stdin, res)
    if k == "ref":
        return run(node[2], stdin, res)
    raise ValueError(k)


def run_sub(node, stdin, res):
    """A command, made up of a pipeline"""
    part = Part(node[2], "c")
    part.inner = Result()
    if node[1] is None or isinstance(node[1], (str, int)):
        part.code = "some"
        res.parts.append(part)
        return Out(b""), False
    out, alls = run(node[1], stdin, part.inner)
    parts = part.inner.parts
    if any(p.failed for p in parts):
        part.code = "some"
    elif any(p.may for p in parts):
        part.may = True
    if any(getattr(p, "died", False) for p in parts):
        part.died = True
    printed = b"".join(getattr(p, "prints", b"") for p in parts)
    if printed:
        out = out.map(lambda data: data + printed)
        # Or it was closed before it got there
        part.unsure = any(p.may for p in parts)
    res.parts.append(part)
    return out, alls and not part.may


def run_cmd(node, stdin, res):
    args = flat_args(node[1])
    part = Part(cmd_id(args), "c")
    argdata = {}
    fns = {}
    n0 = len(res.parts)
    for j, a in enumerate(args):
        if isinstance(a, dict) and "n" in a:
            n = a["n"]
            while n[0] == "ref":
                n = n[2]
            if n[0] == "fn":
                fns[j] = n
            else:
                out, _ = run(a["n"], None, res)
                argdata[j] = out.data
    if node[2].get("nostart"):
        part.code = node[2]["nostart"]
        part.started = False
        for j, n in fns.items():
            fpart = Part(n[3], "fn")
            res.parts.append(fpart)
            fn_run(n[1], n[2], b"", fpart)
        for p in res.parts[n0:]:
            p.may = True
        res.parts.append(part)
        return Out(b""), False
    outs = []
    consumed = []
    written = {}

    def one(data):
        o, c, w = run_ops(args, data, part, argdata)
        outs.append(o)
        consumed.append(c)
        written.update(w)
        return o
    out = (stdin or Out(b"")).map(one)
    for j, n in fns.items():
        fpart = Part(n[3], "fn")
        res.parts.append(fpart)
        o, a = fn_run(n[1], n[2], written.get(j, b""), fpart)
        fpart.input = written.get(j, b"")
        if not a:
            part.may = True
    res.parts.append(part)
    share(res.parts[n0:])
    return out, all(consumed) and not part.may


def share(parts):
    """Arguments, and the sides of a group, have one standard err"""
    sharing = [p for p in parts if p.kind == "c"]
    if len(sharing) > 1:
        for p in sharing:
            p.sharing = sharing


def evaluate(node, stdin=None):
    res = Result()
    out, _ = run(node, Out(stdin) if stdin is not None else None, res)
    res.out = out
    res.last = last_id(node)
    return res


def last_id(node):
    """The command a pipeline ends in, if it does"""
    k = node[0]
    if k == "c":
        return cmd_id(flat_args(node[1]))
    if k in ("|", "+", "ref"):
        return last_id(node[2])
    if k == "r":
        return last_id(node[1])
    return None


def check_out(got, out):
    """None, or what is wrong with got as being out"""
    if len(out.parts) <= 1:
        want = out.data
        if got == want:
            return None
        n = 0
        while n < min(len(got), len(want)) and got[n] == want[n]:
            n += 1
        return "%d bytes (sha1 %s), expected %d bytes (sha1 %s), differ from byte %d: %r instead of %r" % (
            len(got), hashlib.sha1(got).hexdigest()[:8], len(want), hashlib.sha1(want).hexdigest()[:8],
            n, got[max(0, n - 10):n + 30], want[max(0, n - 10):n + 30])
    # Interleaved lines; the lines of the parts are all different
    where = {}
    for pi, p in enumerate(out.parts):
        for l in lines_of(p):
            if l in where and where[l] != pi:
                where[l] = None   # Ambiguous, has to be counted only
            else:
                where.setdefault(l, pi)
    seqs = [[] for p in out.parts]
    amb = []
    if got and not got.endswith(b"\n"):
        return "does not end in newline: %r" % got[-60:]
    for l in lines_of(got):
        if l not in where:
            return "a line that no part wrote: %r" % l[:100]
        if where[l] is None:
            amb.append(l)
        else:
            seqs[where[l]].append(l)
    for pi, p in enumerate(out.parts):
        want = [l for l in lines_of(p) if where[l] is not None]
        if seqs[pi] != want:
            return "part %d: %d lines, expected %d, or in other order; first: %r, expected %r" % (
                pi, len(seqs[pi]), len(want),
                next((x for x, y in zip(seqs[pi] + [None], want + [None]) if x != y), None),
                next((y for x, y in zip(seqs[pi] + [None], want + [None]) if x != y), None))
    wantamb = sorted(l for p in out.parts for l in lines_of(p) if where[l] is None)
    if sorted(amb) != wantamb:
        return "%d lines both write, expected %d" % (len(amb), len(wantamb))
    return None
