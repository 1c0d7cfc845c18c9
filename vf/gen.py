"""Generators of random pipelines (see model.py for the description)"""
from . import model


class Gen(object):
    wild = False    # Text that is not all UTF-8

    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def id(self, prefix):
        self.n += 1
        return "%s%d" % (prefix, self.n)

    def size(self, big=True):
        r = self.rng
        k = r.random()
        if k < 0.1:
            return 0
        if k < 0.35:
            return r.randrange(1, 40)
        if k < 0.6:
            return r.choice([1023, 1024, 1025, 2047, 2048, 2049, 3072, 4095, 4096, 4097, 1000, 5000])
        if k < 0.85 or not big:
            return r.randrange(40, 20000)
        return r.choice([65535, 65536, 65537, 131072, 70000, 100000, 200000])

    def seed(self):
        return self.rng.randrange(1, 12)

    def text(self, n=None, uni=True):
        r = self.rng
        n = r.randrange(0, 30) if n is None else n
        alpha = "abcdefghijklmnopqrstuvwxyz0123456789 .,-_/\\\"'$`!%*?[]{}()#~\t"
        if uni:
            alpha += "\u00e5\u00e4\u20ac\u6f22\U0001f600\u0000\r\x0b\x0c\x1b\x85\u2028"
            if self.wild:
                alpha += "\udc80\udcff\udce2\udce5\udcc3"
        return "".join(r.choice(alpha) for i in range(n))

    def bytestr(self, n=None):
        r = self.rng
        n = r.randrange(0, 60) if n is None else n
        return bytes(r.randrange(256) for i in range(n))

    def text_bytes(self, nlines=None, final=None):
        """Lines of UTF-8, for writing by w:"""
        r = self.rng
        nlines = r.randrange(0, 12) if nlines is None else nlines
        ls = []
        for i in range(nlines):
            k = r.random()
            if k < 0.2:
                ls.append("")
            elif k < 0.3:
                ls.append("\u20ac" * r.choice([1, 341, 342, 700]))
            elif k < 0.35:
                ls.append("x" * r.choice([1022, 1023, 1024, 1025, 2500]))
            else:
                ls.append(self.text())
        s = "\n".join(ls)
        if nlines and (r.random() < 0.7 if final is None else final):
            s += "\n"
        return s.encode("utf-8", "surrogateescape")

    def hexw(self, data):
        """Arguments writing data, in one or several pieces"""
        r = self.rng
        res = []
        data = data[:24000]
        while data:
            n = len(data) if r.random() < 0.5 else r.randrange(1, len(data) + 1)
            res.append("w:" + data[:n].hex())
            data = data[n:]
            if r.random() < 0.3:
                res.append("sl:%d" % r.randrange(0, 6))
        return res

    def cmd(self, args, id=None, opts=None):
        opts = dict(opts or {})
        if "style" not in opts:
            opts["style"] = self.rng.choice([0, 0, 1, 2, 3])
        if opts["style"] == 3 and any(isinstance(a, str) and a.startswith("_") for a in args):
            opts["style"] = 0
        name = opts.pop("name", "vh")
        return ["c", [name, "nop:" + (id or self.id("C"))] + args, opts]

    def us(self):
        return self.rng.choice([0, 0, 0, 0, 100, 1000])

    def source(self, text=False, lines=False, tag=None):
        """A command that writes something"""
        r = self.rng
        if lines:
            return self.cmd(["gl:%s:%d:%d:%d" % (tag or self.id("T"), r.choice([0, 1, 3, 20, 100, 400]), r.choice([0, 5, 30, 100, 900]),
                                                r.choice([0, 0, 0, 200]))])
        if text:
            k = r.random()
            if k < 0.6:
                return self.cmd(self.hexw(self.text_bytes()))
            return self.cmd(["gl:%s:%d:%d:%d" % (self.id("T"), r.choice([0, 1, 3, 20, 100, 1000]), r.choice([0, 5, 30, 100, 900]),
                                                r.choice([0, 0, 0, 200]))])
        k = r.random()
        if k < 0.3:
            return self.cmd(self.hexw(self.bytestr()))
        n = self.size()
        chunk = r.choice([0, 1, 7, 100, 1024, 4096, 10000]) if n < 6000 else r.choice([0, 1000, 4096, 65536])
        us = self.us() if not chunk or n / max(chunk, 1) < 100 else 0
        return self.cmd(["g:%d:%d:%d:%d" % (self.seed(), n, chunk, us)])

    def filter(self, text=False, lines=False):
        """A command that reads all of its input and writes something made of it"""
        r = self.rng
        chunk = r.choice([0, 0, 0, 100, 1024, 4000, 65536])
        k = r.random()
        if lines:
            return self.cmd([r.choice(["lcat", "lup"])])
        if k < 0.4:
            return self.cmd(["cat:%d:%d" % (chunk, r.choice([0, 0, 0, 50]) if chunk > 1000 else 0)])
        if k < 0.6:
            return self.cmd(["up:%d" % chunk])
        if k < 0.7:
            return self.cmd(["pre:%s" % (self.text(r.randrange(0, 5), uni=False).replace("\n", "").encode().hex())])
        if k < 0.8 and not text:
            return self.cmd(["xor:%d:0:%d" % (chunk, r.randrange(256))])
        if k < 0.9 and not text:
            return self.cmd(["rev"])
        if k < 0.95:
            return self.cmd(["cnt"])
        return self.cmd(["cat", "w:" + self.text_bytes(1, True).hex()])

    def delays(self):
        r = self.rng
        d = {}
        if r.random() < 0.3:
            d["fork"] = [0.5, 0.02]
        if r.random() < 0.25:
            d["child"] = [0.5, 0.02]
        if r.random() < 0.3:
            d["short"] = r.choice([0.1, 0.5])
        if r.random() < 0.15:
            d["smallpipe"] = 1
        if r.random() < 0.1:
            d["read"] = [0.2, 0.002]
        if r.random() < 0.1:
            d["write"] = [0.2, 0.002]
        return d

    def cfg(self, p=0.25):
        r = self.rng
        c = {}
        if r.random() < p:
            c["backend"] = "asyncio"
        return c

    # -- Python parts --------------------------------------------------
    def item(self, big=True, none=True, uni=True):
        r = self.rng
        k = r.random()
        if k < 0.4:
            return {"s": self.text(uni=uni).replace("\n", "")}
        if k < 0.55:
            return {"b": self.text().replace("\n", "").encode("utf-8", "surrogateescape").hex()}
        if k < 0.62:
            return {"i": r.choice([0, 1, -1, 10**30, r.randrange(1000)])}
        if k < 0.66:
            return {"f": r.choice([0.0, 1.5, -2.25])}
        if k < 0.7:
            return {"l": r.choice([[], [1, 2], ["a", "b"], True, False])}
        if k < 0.75:
            return {"obj": r.randrange(100)}
        if k < 0.85 and none:
            return {"none": 1}
        if k < 0.9:
            return {"s": ""}
        if k < 0.95 and big:
            return {"bigs": r.choice([300, 511, 512, 2047, 2048, 2049, 5000, 33000])}
        return {"s": "z" * r.choice([4094, 4095, 4096, 4097, 9000])} if big else {"s": "y"}

    ITER_KINDS = ["gen", "gen", "list", "tuple", "iterable", "iterator", "map", "fgen", "fagen", "fsleep", "flist", "method"]

    def iterator(self, n=None, kinds=None, big=True, none=True):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 10, 30]) if n is None else n
        kind = r.choice(kinds or self.ITER_KINDS)
        return ["it", kind, [self.item(big, none) for i in range(n)], self.id("I")]

    def function(self, ops=None, lines=False):
        r = self.rng
        op = r.choice(ops or ["up", "id", "num", "dup", "odd", "lag", "cnt", "items"])
        if lines:
            op = r.choice(["up", "id"])
        params = {"style": r.choice(["agen", "agen", "ret", "class", "method"])}
        if r.random() < 0.1:
            params["nap"] = 0.001
        if op == "cnt" and r.random() < 0.5:
            params["style"] = "coro"
        if op in ("ignore", "items"):
            params["items"] = [self.item() for i in range(r.randrange(0, 5))]
        if op == "take":
            params["n"] = r.choice([0, 1, 2, 5])
        if op == "raise":
            params["n"] = r.choice([0, 1, 3])
            params["exc"] = r.choice(["ValueError", "KeyError", "OSError", "Raised", "ZeroDivisionError", "CancelledError", "BaseRaised", "RuntimeError", "LookupError"])
            params["always"] = 1
        return ["fn", op, params, self.id("F")]

    def pipe(self, parts):
        """The parts piped together, nested in some way"""
        if len(parts) == 1:
            return parts[0]
        k = self.rng.randrange(1, len(parts))
        if self.rng.random() < 0.6:
            k = len(parts) - 1
        return ["|", self.pipe(parts[:k]), self.pipe(parts[k:])]
