"""What judges of several properties use"""
import os

from . import model


def load(workdir, rel):
    with open(os.path.join(workdir, rel), "rb") as f:
        return f.read()


def observed(j, res):
    """What was seen of the case by the monitors, for the evidence"""
    mon = res["mon"]
    j.distinct("event orders", mon["sig"])
    j.count("processes started", mon["forks"])
    j.count("reads by the shell", mon["reads"])


def as_lines(data):
    """What data is when iterated by line and put together again"""
    return b"".join(l + b"\n" for l in model.lines_of(data))


LINE_MODES = ("iter", "list", "aiter", "raiter")


def check_output(j, case, res, ev, workdir, key="output"):
    """Output read, or written to the shell's standard out, against the model"""
    obs = res["obs"]
    mode = case["p"]["mode"]
    if "out" not in obs and "exc" in obs and mode in ("bytes", "str", "list"):
        return False  # What was read is lost with the exception
    if "out" not in obs:
        j.fail(key, "no output could be read: %s" % (obs.get("exc"),))
        return False
    got = load(workdir, obs["out"])
    out = ev.out
    if mode in LINE_MODES:
        out = out.map(as_lines)
    err = model.check_out(got, out)
    if err:
        j.fail(key, "%s: %s" % (mode, err))
    if obs.get("bad_lines"):
        j.fail(key, "%d lines contain newlines or are not strings" % obs["bad_lines"])
    j.count("bytes compared", len(got))
    return not err


def expect_ok(j, res, key="exception"):
    e = res["obs"].get("exc")
    if e:
        j.fail(key, "raised %s: %s %s" % (e["type"], (e["str"] or "")[:600], e.get("tb", "")))
        return False
    return True


def ids(parts):
    return sorted(str(p["id"]) for p in parts)


def check_failures(j, case, res, ev, key="failures"):
    """The exception, and the failed parts, against the model.  Parts which
    write to something that does not read all of it may fail or not."""
    obs = res["obs"]
    name = lambda p: None if p.anon else p.id
    must = {name(p): p for p in ev.parts if p.failed}
    may = {name(p) for p in ev.parts if p.may}
    e = obs.get("exc")
    if must:
        if not e:
            j.fail(key, "%s failed, but nothing was raised" % sorted(map(str, must)))
            return
    if e:
        if not e["type"] == "PipelineFailed":
            j.fail(key, "raised %s: %s %s" % (e["type"], (e["str"] or "")[:300], e.get("tb", "")))
            return
        failed = {p["id"] for p in e["pipeline"]["parts"] if p["infailed"]}
        if not must and not may:
            j.fail(key, "raised %s, but nothing failed: %s" % (e["type"], (e["str"] or "")[:600]))
            return
        j.check(set(must) <= failed, key, lambda: "failed_processes are %s, but %s failed" % (
            sorted(map(str, failed)), sorted(map(str, must))))
        j.check(failed <= set(must) | may, key, lambda: "failed_processes are %s, but only %s failed (%s may have)" % (
            sorted(map(str, failed)), sorted(map(str, must)), sorted(map(str, may))))
        j.check(failed, key, "PipelineFailed with no failed_processes")
    return e


def check_parts(j, obs_rp, ev, key="parts", content=True):
    """Every part of the pipeline, and how it ended, against the model"""
    want = {p.id: p for p in ev.parts}
    got = ids(obs_rp["parts"])
    wantids = sorted("None" if p.anon else p.id for p in ev.parts)
    if not j.check(got == wantids, key, lambda: "parts are %s, expected %s" % (got, wantids)):
        return
    if "exit" in obs_rp:
        for p in obs_rp["parts"]:
            if p["id"] == ev.last and p["kind"] == "c" and "code" in p:
                j.eq(obs_rp["exit"], p["code"], key, "exit_code of the pipeline, which ends in %s" % p["id"])
    for p in obs_rp["parts"]:
        if p["id"] is None:
            j.check(not p["running"] and not p["inrunning"], key, "a part is still running")
            continue
        w = want[p["id"]]
        if not j.check(not p["running"] and not p["inrunning"], key, "%s is still running" % p["id"]):
            continue
        if w.may and not w.failed:
            j.check(p["failed"] == p["infailed"], key, "%s: is_failed is not the same as failed_processes" % p["id"])
            continue
        if w.may and p["kind"] == "c" and p["code"] in (74, 13) and w.failed:
            continue
        if w.may and p["kind"] == "fn" and p["exc"] == "BrokenPipeError":
            continue
        j.check(p["failed"] == w.failed and p["infailed"] == w.failed, key, lambda: "%s: failed is %s, expected %s" % (
            p["id"], p["failed"], w.failed))
        if p["kind"] == "c":
            if w.code == "nonzero":
                j.check(p["code"] not in (0, None), key, lambda: "%s: exit_code is %s" % (p["id"], p["code"]))
            else:
                j.eq(p["code"], w.code, key, "%s: exit_code" % p["id"])
            if content and w.sharing is not None:
                check_shared(j, p, w, key)
            elif content and w.started:
                j.eq(p["content"].get("2"), w.err.decode("utf-8", "replace"), key, "%s: captured standard err" % p["id"])
        else:
            j.eq(p["exc"], w.exc, key, "%s: exception" % p["id"])


def check_shared(j, p, w, key):
    """Arguments share the standard err of the command they are arguments
    of: everything any of them wrote is there, and nothing else"""
    if any(x.may or not x.started for x in w.sharing):
        return
    got = p["content"].get("2")
    errs = [x.err.decode("utf-8", "replace") for x in w.sharing]
    if not j.check(isinstance(got, str) and sorted(got) == sorted("".join(errs)), key, lambda: (
            "%s: captured standard err, shared, is %r, expected all of %r" % (p["id"], got, errs))):
        return
    j.count("shared captures compared")


def check_inputs(j, res, ev, workdir, key="input"):
    """What functions read, against the model"""
    obs = res["obs"]
    for p in ev.parts:
        if p.kind != "fn" or p.input is None or p.id not in obs.get("gotfile", {}):
            continue
        got = load(workdir, obs["gotfile"][p.id]).split(b"\0")[:-1]
        if b"\0" in p.input:
            continue
        want = model.lines_of(p.input)
        j.count("lines read by functions", len(got))
        if getattr(p, "all", True) and not p.exc and not p.may:
            if got != want:
                n = 0
                while n < min(len(got), len(want)) and got[n] == want[n]:
                    n += 1
                j.fail(key, "%s read %d lines, expected %d; line %d is %r, expected %r" % (
                    p.id, len(got), len(want), n, got[n:n + 1], want[n:n + 1]))
        else:
            j.check(got == want[:len(got)], key, "%s read something that was not written: %r" % (p.id, got[-3:]))


def check_conserved(j, res, key="conserved", tmp=True):
    end = res["end"]
    mon = res["mon"]
    j.check(not end["fds_new"], key, "file descriptors left open: %s" % end["fds_new"])
    j.check(not end["fds_gone"], key, "file descriptors of the shell closed: %s" % end["fds_gone"])
    j.check(not end["fds_other"], key, "file descriptors of the shell changed: %s" % end["fds_other"])
    j.check(not end["kids"], key, "child processes left: %s" % end["kids"])
    if tmp:
        j.check(not end["tmp"], key, "temporary files left: %s" % end["tmp"])
    j.check(all(end["same"]), key, "changed in the shell (cwd, environ, umask same?): %s" % end["same"])
    j.check(not mon["badclose"], key, "closed descriptors that were not open: %s" % mon["badclose"])
    j.check(not res.get("leaked"), key, "a child came back into the shell's code: %s" % res.get("leaked"))
