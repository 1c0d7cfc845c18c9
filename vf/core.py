"""Runs the workloads of one property under monitoring and reports on them.

Runs in the system python3 (CPython).  The code under test runs in worker
processes (vf/worker.py) in the Python pieshell is installed in, each running
a batch of cases one after the other in the same shell, as a user of its own
and with everything it writes in a scratch directory.
"""
import collections
import hashlib
import importlib
import json
import os
import queue
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

# A parent that ignores it has children that vanish
signal.signal(signal.SIGCHLD, signal.SIG_DFL)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
PYPY = os.environ.get("VF_PYTHON", "/opt/venv/bin/python")
UID = 54321


class Inconclusive(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


SCRIPTS = {
    # The command line of the code under test
    "pieshell": """#!/bin/sh
exec "$VF_PYTHON" -c 'import pieshell.shell; pieshell.shell.main()' "$@"
""",
    # Runs its last argument in a shell elsewhere
    "ssh": """#!/bin/sh
for a in "$@"; do
    printf '%s\\0' "$a" >> "$VF_SSHLOG"
    cmd="$a"
done
cd "$VF_REMOTE" || exit 255
export TMPDIR="$VF_REMOTE" ELSEWHERE=1
unset VF_LOCAL
exec sh -c "$cmd"
""",
}


class Stage(object):
    """A copy of the code under test, its generated files, the helper
    program and the worker, in a scratch directory."""

    def __init__(self, name):
        self.dir = tempfile.mkdtemp(prefix="vf-%s-" % name)
        os.chmod(self.dir, 0o755)
        self.pkg = os.path.join(self.dir, "pkg")
        self.lib = os.path.join(self.dir, "lib")
        self.bin = os.path.join(self.dir, "bin")
        self.work = os.path.join(self.dir, "work")
        for d in (self.pkg, self.lib, self.bin, self.work):
            os.mkdir(d)
            os.chmod(d, 0o755)
        os.chmod(self.work, 0o777)
        ignore = shutil.ignore_patterns("__pycache__", "*.pyc", ".git")
        for entry in os.listdir(REPO):
            if entry in (".git", "tests") or entry.endswith(".egg-info"):
                continue
            src = os.path.join(REPO, entry)
            dst = os.path.join(self.pkg, entry)
            if os.path.isdir(src):
                shutil.copytree(src, dst, ignore=ignore)
            else:
                shutil.copy(src, dst)
        env = dict(os.environ, HOME=self.dir)
        env.pop("PYTHONPATH", None)
        r = sh([PYPY, "setup.py", "-q", "egg_info"], cwd=self.pkg, env=env)
        if r.returncode:
            raise Inconclusive("setup.py egg_info failed:\n%s" % r.stdout.decode("utf-8", "replace")[-2000:])
        shutil.copytree(os.path.join(VERIF, "vf"), os.path.join(self.lib, "vf"), ignore=ignore)
        vh = os.path.join(self.bin, "vh")
        r = sh(["gcc", "-O1", "-o", vh, os.path.join(VERIF, "vf", "vh.c")])
        if r.returncode:
            raise Inconclusive("gcc failed:\n%s" % r.stdout.decode("utf-8", "replace"))
        # The same program by other names
        for name in ("alpha", "beta", "gamma", "delta", "vh-x", "vh.y", "9lives", "0ad", "is_running", "dumper", "dumper2", "dumper_x", "dumper-x", "dumper.y", "Cd", "FG", "cd_", "Remote"):
            os.link(vh, os.path.join(self.bin, name))
        for name, text in SCRIPTS.items():
            path = os.path.join(self.bin, name)
            with open(path, "w") as f:
                f.write(text)
            os.chmod(path, 0o755)
        # Compile what is imported once
        env = self.env(os.path.join(self.dir))
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        sh([PYPY, "-m", "compileall", "-q", os.path.join(self.pkg, "pieshell"), os.path.join(self.lib, "vf")], env=env)
        for root, dirs, files in os.walk(self.dir):
            for d in dirs:
                os.chmod(os.path.join(root, d), 0o777 if root == self.work or d == "work" else 0o755)
            for f in files:
                p = os.path.join(root, f)
                os.chmod(p, os.stat(p).st_mode | 0o444)

    def env(self, home, extra={}):
        env = {
            "PATH": "%s:/usr/local/bin:/usr/bin:/bin" % self.bin,
            "HOME": home,
            "TMPDIR": os.path.join(home, "tmp"),
            "PYTHONPATH": "%s:%s" % (self.pkg, self.lib),
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONHASHSEED": "0",
            "LANG": "C.UTF-8",
            "LC_ALL": "C.UTF-8",
            "TERM": "dumb",
            "USER": "vf",
            "VF_BIN": self.bin,
            "VF_PKG": self.pkg,
            "VF_PYTHON": PYPY,
            **({"VF_TRACE": "1"} if os.environ.get("VF_TRACE") else {}),
        }
        env.update(extra)
        return env

    def destroy(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def can_setuid():
    pid = os.fork()
    if pid == 0:
        try:
            os.setgid(UID)
            os.setuid(UID)
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


def session_pids(sid):
    res = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    s = f.read()
            except OSError:
                continue
            fields = s[s.rindex(")") + 2:].split()
            if int(fields[3]) == sid:
                res.append((int(d), s[s.index("(") + 1:s.rindex(")")], fields[0], int(fields[11]) + int(fields[12])))
    return res


def kill_session(sid):
    """Ends every process of a worker - they are all in the session it is
    the leader of."""
    for i in range(20):
        pids = session_pids(sid)
        alive = [p for p in pids if p[2] != "Z"]
        if not alive:
            return
        for p in alive:
            try:
                os.kill(p[0], signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.01)


class Worker(object):
    """One process running a batch of cases."""
    count = 0
    lock = threading.Lock()

    def __init__(self, run, cases, cfg, timeout):
        with Worker.lock:
            Worker.count += 1
            self.no = Worker.count
        self.run = run
        self.cases = cases
        self.cfg = cfg
        self.timeout = timeout
        self.dir = os.path.join(run.stage.work, "w%d" % self.no)
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.dir, "tmp"))
        if run.uid:
            os.chown(self.dir, UID, UID)
            os.chown(os.path.join(self.dir, "tmp"), UID, UID)

    def __call__(self, on_result):
        """Runs the cases, in order, calling on_result(case, result) for
        each.  Returns (None, None) or (reason, case) if a case did not
        end."""
        run = self.run
        casefile = os.path.join(self.dir, "cases.json")
        with open(casefile, "w") as f:
            json.dump({"cfg": self.cfg, "prop": run.prop, "uid": UID if run.uid else None,
                       "dir": self.dir,
                       "cases": [[c["no"], c] for c in self.cases]}, f)
        os.chmod(casefile, 0o644)
        rfd, wfd = os.pipe()
        ofd, owfd = os.pipe()
        p = subprocess.Popen(
            [PYPY, os.path.join(run.stage.lib, "vf", "worker.py"), casefile, str(wfd)],
            stdin=subprocess.DEVNULL, stdout=owfd, stderr=owfd, pass_fds=(wfd,),
            cwd=self.dir, env=run.stage.env(self.dir, self.cfg.get("env", {})), start_new_session=True)
        os.close(wfd)
        os.close(owfd)
        buf = b""
        out = b""
        current = None
        done = 0
        deadline = time.time() + self.timeout + 30
        bycase = {c["no"]: c for c in self.cases}
        reason = None
        fds = [rfd, ofd]
        try:
            while fds:
                left = deadline - time.time()
                if left <= 0:
                    reason = "hang"
                    break
                if run.stop.is_set():
                    break
                rs, _, _ = select.select(fds, [], [], min(left, 0.5))
                if ofd in rs:
                    d = os.read(ofd, 65536)
                    if not d:
                        fds.remove(ofd)
                    out = (out + d)[-65536:]
                if rfd in rs:
                    d = os.read(rfd, 1 << 20)
                    if not d:
                        break
                    buf += d
                    while b"\n" in buf:
                        line, buf = buf.split(b"\n", 1)
                        msg = json.loads(line)
                        deadline = time.time() + self.timeout
                        if msg[0] == "start":
                            current = bycase[msg[1]]
                        elif msg[0] == "end":
                            done += 1
                            current = None
                            on_result(bycase[msg[1]], msg[2], self)
                            shutil.rmtree(os.path.join(self.dir, "c%d" % msg[1]), ignore_errors=True)
                        elif msg[0] == "bye":
                            run.add_counters(msg[1])
                elif not rs and p.poll() is not None:
                    break
            if reason == "hang":
                before = {x[0]: x for x in session_pids(p.pid)}
                # Let the worker say where it is
                try:
                    os.kill(p.pid, signal.SIGUSR2)
                except OSError:
                    pass
                time.sleep(1.5)
                after = {x[0]: x for x in session_pids(p.pid)}
                try:
                    while select.select([ofd], [], [], 0.1)[0]:
                        d = os.read(ofd, 65536)
                        if not d:
                            break
                        out = (out + d)[-65536:]
                except OSError:
                    pass
                self.diag = {
                    "processes": ["%s %s %s cpu=%s" % x for x in after.values()],
                    "quiescent": all(x[2] in "STZ" and abs(x[3] - before.get(x[0], x)[3]) <= 2 for x in after.values()),
                    "output": out[-6000:].decode("utf-8", "replace")}
            elif not run.stop.is_set() and done < len(self.cases):
                try:
                    code = p.wait(5)
                except subprocess.TimeoutExpired:
                    code = None
                reason = "died"
                self.diag = {"exit": code, "output": out[-6000:].decode("utf-8", "replace")}
        finally:
            kill_session(p.pid)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                pass
            os.close(rfd)
            os.close(ofd)
            shutil.rmtree(self.dir, ignore_errors=True)
        if reason and current is None and done == 0:
            raise Inconclusive("worker %s before any case: %s" % (reason, json.dumps(self.diag)[-3000:]))
        if reason and current is None:
            # Between cases, blame what ran last
            current = self.cases[done - 1]
            self.remaining = self.cases[done:]
            return reason, current
        if reason:
            self.remaining = self.cases[self.cases.index(current) + 1:]
            return reason, current
        return None, None


class Judge(object):
    """Given to the judge() function of a property."""

    def __init__(self, run, case, res):
        self.run = run
        self.case = case
        self.res = res
        self.problems = []

    def fail(self, key, msg):
        self.problems.append((key, msg))

    def check(self, cond, key, msg):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return cond

    def eq(self, got, want, key, what):
        return self.check(got == want, key, lambda: "%s: got %s, expected %s" % (what, short(got), short(want)))

    def count(self, name, n=1):
        self.run.counters[name] += n

    def maximum(self, name, n):
        self.run.maxima[name] = max(self.run.maxima.get(name, n), n)

    def distinct(self, kind, what):
        self.run.sets[kind].add(hashlib.sha1(repr(what).encode("utf-8", "replace")).digest()[:8])

    def nontrivial(self, what=None):
        self.run.nontrivial.add(hashlib.sha1(json.dumps(
            what if what is not None else self.case["p"], sort_keys=True).encode()).digest()[:8])


def short(x, n=300):
    s = repr(x)
    if len(s) > n:
        s = "%s...(%d)...%s" % (s[:n * 2 // 3], len(s), s[-n // 3:])
    return s


class Run(object):
    def __init__(self, prop, tier, seed, replay=None, limit=None, budget=None, jobs=None):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.replay = replay
        self.mod = importlib.import_module("vf.props.%s" % prop.lower())
        self.counters = collections.Counter()
        self.maxima = {}
        self.sets = collections.defaultdict(set)
        self.nontrivial = set()
        self.violations = []
        self.known_hits = {}
        self.samples = []
        self.evaluations = 0
        self.slow = 0
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.errors = []
        self.jobs = jobs or int(os.environ.get("VF_JOBS", "8"))
        self.limit = limit
        q = getattr(self.mod, "QUICK", {})
        t = getattr(self.mod, "THOROUGH", {})
        o = q if tier == "quick" else t
        self.budget = budget or o.get("budget", 20 if tier == "quick" else 420)
        if tier == "quick" and not budget:
            # The number of cases is what bounds it, but on a slow machine
            self.budget = max(self.budget, 200)
        self.limit = limit or o.get("cases", 400 if tier == "quick" else 1000000)
        self.batch = o.get("batch", getattr(self.mod, "BATCH", 20))
        self.timeout = getattr(self.mod, "TIMEOUT", 25)
        self.known = []
        try:
            with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("{"):
                        k = json.loads(line)
                        if k["property"] == prop:
                            self.known.append(k)
        except FileNotFoundError:
            pass

    def add_counters(self, c):
        with self.lock:
            for k, v in c.items():
                if isinstance(v, list):
                    self.sets[k].update(v)
                else:
                    self.counters[k] += v

    # -- violations ---------------------------------------------------
    def report(self, case, key, msg, diag=None):
        with self.lock:
            for k in self.known:
                if k["key"] == key:
                    self.known_hits[key] = k
                    return
            if len(self.violations) >= 50:
                return
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (self.prop, hashlib.sha1(
                json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "message": msg, "case": case, "diag": diag}, f, indent=1)
            self.violations.append((key, msg, path))
            if len(set(k for k, m, p in self.violations)) >= 3 or len(self.violations) >= 8:
                self.stop.set()

    def on_result(self, case, res, worker):
        with self.lock:
            self.evaluations += 1
        if "error" in res and res.get("in_pieshell"):
            # What the scenario relies on does not work
            self.report(case, "unexpected", "%s failed:\n%s" % (res["in_pieshell"][-1], res["error"][-1800:]), {"result": res})
            return
        if "error" in res:
            # The harness itself failed
            with self.lock:
                self.errors.append("case %s: %s" % (json.dumps(case)[:1000], res["error"]))
                if len(self.errors) > 5:
                    self.stop.set()
            return
        j = Judge(self, case, res)
        try:
            with self.lock:
                self.mod.judge(case, res, j, worker.dir)
        except Exception:
            with self.lock:
                self.errors.append("judge: case %s: %s" % (json.dumps(case)[:2000], traceback.format_exc()))
                if len(self.errors) > 5:
                    self.stop.set()
            return
        for key, msg in j.problems:
            self.report(case, key, msg, {"result": res})
        if len(self.samples) < 3 and not j.problems:
            s = json.dumps({"case": case["p"], "observed": res.get("obs")})
            if len(s) < 3000 and s not in self.samples:
                self.samples.append(s)

    def thread(self, batches):
        while not self.stop.is_set():
            try:
                cfg, cases = batches.get_nowait()
            except queue.Empty:
                return
            if time.time() > self.deadline:
                self.counters["cases not run (time)"] += len(cases)
                continue
            try:
                while cases and not self.stop.is_set():
                    w = Worker(self, cases, cfg, self.timeout)
                    reason, case = w(self.on_result)
                    if reason is None:
                        break
                    with self.lock:
                        self.suspects.append((reason, case, cfg, w.diag))
                        if len(self.suspects) >= 4:
                            # Most likely not load; see what they are first
                            self.stop.set()
                    cases = w.remaining
            except Inconclusive as e:
                with self.lock:
                    self.errors.append(str(e))
                    self.stop.set()
            except Exception:
                with self.lock:
                    self.errors.append(traceback.format_exc())
                    self.stop.set()

    def confirm(self):
        """Cases that did not end are run again, on their own, with a lot
        of time.  Only if they don't end then either is that a violation."""
        suspects = self.suspects[:4]
        self.stop.clear()

        def one(reason, case, cfg, diag):
            try:
                for i in range(2):
                    w = Worker(self, [case], cfg, max(40, self.timeout * 2))
                    r, c = w(self.on_result)
                    if r is not None:
                        self.report(case, r, "%s (%s, then alone: %s): %s" % (
                            "the case did not end" if r == "hang" else "the shell died", reason, r,
                            json.dumps(w.diag)[:1500]), {"first": diag, "again": w.diag})
                        return
                    if reason == "died":
                        continue
                    break
                with self.lock:
                    self.slow += 1
                    self.counters["not reproduced: " + reason] += 1
                    self.unreproduced.append({"reason": reason, "case": case, "cfg": cfg, "diag": diag})
            except Exception:
                with self.lock:
                    self.errors.append(traceback.format_exc())
        ts = [threading.Thread(target=one, args=s) for s in suspects]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def main(self):
        t0 = time.time()
        self.suspects = []
        self.unreproduced = []
        self.stage = Stage(self.prop.lower())
        self.uid = os.getuid() == 0 and can_setuid()
        try:
            self.deadline = t0 + self.budget
            rng = random.Random("%s %s %s" % (self.prop, self.seed, self.tier))
            if self.replay:
                with open(self.replay) as f:
                    cases = [json.load(f)["case"]]
                if self.repeat > 1:
                    cases = [dict(cases[0], no=i) for i in range(self.repeat)]
            else:
                cases = []
                for c in self.mod.cases(rng, self.tier):
                    c.setdefault("cfg", {})
                    c["no"] = len(cases)
                    c.setdefault("seed", rng.randrange(1 << 30))
                    cases.append(c)
                    if len(cases) >= self.limit:
                        break
            groups = collections.OrderedDict()
            for c in cases:
                groups.setdefault(json.dumps(c["cfg"], sort_keys=True), []).append(c)
            batches = []
            for cfg, cs in groups.items():
                n = self.batch
                if len(cs) < n * self.jobs:
                    n = max(1, min(n, (len(cs) + self.jobs - 1) // self.jobs))
                for i in range(0, len(cs), n):
                    batches.append((json.loads(cfg), cs[i:i + n]))
            rng.shuffle(batches)
            q = queue.Queue()
            for b in batches:
                q.put(b)
            ts = [threading.Thread(target=self.thread, args=(q,)) for i in range(self.jobs)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if self.suspects:
                self.confirm()
            if hasattr(self.mod, "finish") and not self.replay and not self.violations:
                self.mod.finish(self)
        finally:
            self.stage.destroy()
        wall = time.time() - t0
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.mod.RULE,
            "samples": [json.loads(s) for s in self.samples] or ["none"],
            "observed": dict(sorted(self.counters.items())),
            "observed_distinct": {k: len(v) for k, v in sorted(self.sets.items())},
            "observed_max": dict(sorted(self.maxima.items())),
            "suspects": len(self.suspects),
            "suspects_not_reproduced": self.slow,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": coverage, "assumptions": getattr(self.mod, "ASSUMPTIONS", []),
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        if self.unreproduced:
            ev["coverage"]["unreproduced"] = [json.dumps(u)[:12000] for u in self.unreproduced]
        if not self.replay:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            tmp = os.path.join(VERIF, "evidence", "%s.json.tmp" % self.prop)
            with open(tmp, "w") as f:
                json.dump(ev, f, indent=1)
            os.rename(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.prop))
        for k in sorted(self.known_hits):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known_hits[k]["what"]))
        for key, msg, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s: %s" % (key, msg[:2000]))
        print("%s: %d cases, %d distinct non-trivial, %d violations, %d not reproduced, %.1f s" % (
            self.prop, self.evaluations, len(self.nontrivial), len(self.violations), self.slow, wall))
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print("ERROR %s" % e)
            return 2
        if not self.replay:
            for name, n in getattr(self.mod, "REQUIRED", {}).items():
                got = self.counters.get(name, 0) or len(self.sets.get(name, ()))
                if got < n:
                    print("INCONCLUSIVE observed only %s of %s (needs %s)" % (got, name, n))
                    return 2
            if len(self.nontrivial) < 2:
                print("INCONCLUSIVE nothing was observed")
                return 2
        return 0


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--repeat", type=int, default=1, help="run a replay this many times")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    try:
        run = Run(a.prop, a.tier, a.seed, a.replay, a.limit, a.budget)
        run.repeat = a.repeat
        code = run.main()
    except Inconclusive as e:
        print("ERROR %s" % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
