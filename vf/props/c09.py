"""C09: TMP and STRING capture exactly what was written"""
import os

from .. import gen, model, judge as J

RULE = ("Random pipelines, groups, arguments and functions whose standard out, err and other descriptors are captured with TMP and STRING at "
        "any level, by one or several writers, with 0-300000 bytes of text, invalid UTF-8, CRs and NULs; several pipelines run several times, one "
        "after the other or at the same time; contents, files, and the temporary directory compared with the model; non-trivial if something "
        "captured was compared, distinct by description")
QUICK = {"cases": 600, "budget": 25}
THOROUGH = {"cases": 60000, "budget": 400}
REQUIRED = {"captures compared": 1500, "TMP files compared": 150, "shared captures compared": 50, "bytes compared": 500000}


class G(gen.Gen):
    def __init__(self, rng):
        gen.Gen.__init__(self, rng)

    def content(self, shared, utf8=False):
        r = self.rng
        if utf8:    # Functions read text
            return r.choice([b"", b"a\r\nb\xe2\x82\xac\rc\n\n", b"\xc3\xa9" * 2000])
        if shared:
            return model.gl(self.id("L"), r.choice([0, 1, 5, 30]), r.choice([0, 20, 200]))
        k = r.random()
        if k < 0.2:
            return b""
        if k < 0.5:
            return self.text_bytes()
        if k < 0.7:
            return self.bytestr(r.choice([1, 5, 60, 500]))
        if k < 0.8:
            return r.choice([b"\r\n", b"a\r\nb\rc\n\n", b"\xff\xfe", b"\xef\xbb\xbfbom", b"\xe2\x82", b"\x00\x00", b"\xed\xa0\x80", "\u20ac".encode() * 3000])
        return None

    def cmd_(self, first, shared=(), utf8=False):
        """A command writing to 1, 2, and some others"""
        r = self.rng
        args = []
        data = {}
        if not first:
            args.append("drain")
        for fd in (1, 2) + ((5,) if r.random() < 0.3 else ()):
            c = self.content(fd in shared, utf8 and fd == 1)
            if c is None:
                if fd == 5:
                    c = b"x"
                else:
                    seed, n = self.seed(), r.choice([1000, 70000, 70000, 300000] if r.random() < 0.9 else [1300000])
                    args.append("%s:%d:%d:%d" % ("g" if fd == 1 else "ge", seed, n, r.choice([0, 1000, 65536])))
                    data[fd] = ["prng", seed, n]
                    continue
            data[fd] = c.hex()
            if fd in shared:
                for l in c.split(b"\n")[:-1]:
                    args.append("%s:%s" % ({1: "w", 2: "e"}.get(fd, "wf:%d" % fd), (l + b"\n").hex()))
            elif fd == 5:
                args.append("wf:5:" + c[:5000].hex())
                data[fd] = c[:5000].hex()
            else:
                c = c[:20000]
                data[fd] = c.hex()
                while c:
                    n = r.randrange(1, len(c) + 1)
                    args.append(("w:" if fd == 1 else "e:") + c[:n].hex())
                    c = c[n:]
        if r.random() < 0.15:
            args.append("x:%d" % r.randrange(1, 10))
        c = self.cmd(args)
        c[2]["data"] = data
        return c

    def capture(self, n, fd=None):
        r = self.rng
        fd = fd or r.choice([1, 1, 2, 2, 5])
        return ["r", n, {"fd": fd, "to": {"special": r.choice(["TMP", "STRING", "STRING"])}, "flag": os.O_WRONLY | os.O_CREAT}]


def need5(node, have=False):
    """5 has to be somewhere if it is written to"""
    if node[0] == "c":
        if "5" in node[2]["data"] or 5 in node[2]["data"]:
            if not have:
                return ["r", node, {"fd": 5, "to": {"special": "STRING"}, "flag": os.O_WRONLY | os.O_CREAT}]
        return node
    if node[0] == "r":
        return ["r", need5(node[1], have or node[2]["fd"] == 5), node[2]]
    if node[0] in ("|", "+"):
        return [node[0], need5(node[1], have), need5(node[2], have)]
    return node


def pipeline(rng, idp):
    g = G(rng)
    g.n = idp
    k = rng.random()
    if k < 0.55:
        parts = []
        n = rng.choice([1, 1, 2, 3])
        fns = [i and rng.random() < 0.15 for i in range(n)] + [False]
        for i in range(n):
            if fns[i]:
                p = ["fn", "items", {"style": "agen", "items": [g.item(none=False) for x in range(3)]}, g.id("F")]
                if rng.random() < 0.5:
                    p = g.capture(p, 1)
            else:
                p = g.cmd_(i == 0, utf8=fns[i + 1])
                for x in range(rng.choice([0, 1, 1, 2])):
                    p = g.capture(p)
            parts.append(p)
        node = g.pipe(parts)
    else:
        sh = rng.choice([(1,), (2,), (1, 2)])
        a, b = g.cmd_(True, (1, 2, 5)), g.cmd_(True, (1, 2, 5))
        if rng.random() < 0.2:
            # Nothing is left for the capture around both
            fd = rng.choice([1, 2])
            a, b = g.capture(a, fd), g.capture(b, fd)
            sh = (fd,)
        elif rng.random() < 0.3:
            a = g.capture(a)
        if rng.random() < 0.3:
            b = ["|", b, g.cmd_(False, (1, 2, 5))]
        node = ["+", a, b]
        if rng.random() < 0.8:
            node = g.capture(node, rng.choice(sh))
    if rng.random() < 0.3:
        node = g.capture(node)
    return need5(node), g.n


def one(rng, tier):
    g = gen.Gen(rng)
    nodes = []
    idp = 0
    for i in range(rng.choice([1, 1, 2, 3])):
        n, idp = pipeline(rng, idp)
        nodes.append(n)
    p = {"nodes": nodes, "runs": rng.choice([1, 1, 2, 3]), "way": rng.choice(["seq", "par"]), "remove": rng.random() < 0.6}
    if p["way"] == "par" and rng.random() < 0.3:
        p["read"] = 1
    return {"scn": "caps", "p": p, "delays": g.delays(), "cfg": g.cfg()}


def cases(rng, tier):
    while True:
        yield one(rng, tier)


class Eval(object):
    def __init__(self):
        self.n = 0
        self.parts = {}     # id -> {fd: (kind, capture)}
        self.writers = {}   # capture -> [bytes]

    def make(self, t):
        r = {}
        for fd, (kind, id) in t.items():
            if id is None and kind in ("TMP", "STRING"):
                self.n += 1
                id = self.n
                self.writers[id] = []
            r[fd] = (kind, id)
        return r

    def walk(self, node, t):
        k = node[0]
        if k == "c":
            t = self.make(t)
            id = model.cmd_id(node[1])
            self.parts[id] = t
            for fd, d in node[2]["data"].items():
                d = bytes.fromhex(d) if isinstance(d, str) else model.cprng(d[1], d[2])
                cap = t.get(int(fd))
                if cap and cap[1]:
                    self.writers[cap[1]].append(d)
        elif k == "fn":
            t = self.make(t)
            self.parts[node[3]] = t
            if t[1][1]:
                self.writers[t[1][1]].append(model.items_bytes(node[2]["items"]))
        elif k == "|":
            self.walk(node[1], dict(t, **{}) | {1: ("pipe", None)})
            self.walk(node[2], t)
        elif k == "+":
            t = self.make(t)
            self.walk(node[1], t)
            self.walk(node[2], t)
        elif k == "r":
            self.walk(node[1], t | {node[2]["fd"]: (node[2]["to"]["special"], None)})
        else:
            raise ValueError(k)


def judge(case, res, j, workdir):
    p = case["p"]
    obs = res["obs"]
    J.observed(j, res)
    evs = []
    for n in p["nodes"]:
        ev = Eval()
        ev.walk(n, {1: ("out", None), 2: ("STRING", None)})
        evs.append(ev)
    owner = {}
    tmps = []
    j.eq(len(obs["runs"]), len(p["nodes"]) * p["runs"], "runs", "runs")
    for ri, (ni, parts) in enumerate(obs["runs"]):
        ev = evs[ni]
        if not j.eq(sorted(x["id"] for x in parts), sorted(ev.parts), "parts", "parts"):
            return
        for x in parts:
            t = ev.parts[x["id"]]
            strings = {str(fd): c for fd, (k, c) in t.items() if k == "STRING"}
            files = {str(fd): c for fd, (k, c) in t.items() if k == "TMP"}
            j.eq(sorted(x["content"]), sorted(strings), "content", "%s: descriptors in output_content" % x["id"])
            j.eq(sorted(x["files"]), sorted(files), "files", "%s: descriptors in output_files" % x["id"])
            for fd, c in list(strings.items()) + list(files.items()):
                w = ev.writers[c]
                what = "%s, descriptor %s" % (x["id"], fd)
                if fd in strings:
                    if fd not in x["content"]:
                        continue
                    kind, f = x["content"][fd]
                    j.eq(kind, "str", "content", "type of output_content of " + what)
                    got = J.load(workdir, f)
                    w = [d.decode("utf-8", "replace").encode("utf-8") for d in w]
                else:
                    if fd not in x["files"]:
                        continue
                    path, f = x["files"][fd]
                    if not j.check(f, "files", "%s: %s is not there" % (what, path)):
                        continue
                    tmps.append(path)
                    got = J.load(workdir, f)
                    if owner.setdefault(path, (ri, c)) != (ri, c):
                        j.fail("mixed", "%s: %s is also the file of another run or part" % (what, path))
                    j.count("TMP files compared")
                err = model.check_out(got, model.Out(*w))
                if err:
                    j.fail("content", "%s, run %d: %s" % (what, ri, err))
                j.count("captures compared")
                j.count("bytes compared", len(got))
                if len(w) > 1:
                    j.count("shared captures compared")
    j.eq(obs["kept"], sorted(set(tmps)), "files", "files kept")
    j.eq(obs["tmp"], sorted(set(tmps)), "tmp", "files in the temporary directory")
    for want, got in obs["after"]:
        j.eq(got, want, "removed", "files in the temporary directory after remove_output_files()")
    J.check_conserved(j, res, tmp=False)
    j.nontrivial()
