#!/usr/bin/env python3
"""Confirms planted bugs: plant.py SPEC.py [ID...]

SPEC.py defines SEEDS = [{"id", "property", "edits": [(file, old, new)...],
"demo": python source, "needs", "breaks"}]. Each is tried in a scratch copy of
/repo: the demo has to pass without and fail with the change, and the stable
tests have to pass with it. Writes seeded/<id>/ for those that do."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Run in the root of the repository, after the build
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$dir"' EXIT
export HOME=$dir/home TMPDIR=$dir/tmp LANG=C.UTF-8 LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$repo TERM=dumb
mkdir "$HOME" "$TMPDIR" "$dir/work"
cd "$dir/work" || exit 3
timeout -k 5 %d /opt/venv/bin/python "$here/demo.py"
"""
ns = {}
exec(open(sys.argv[1]).read(), ns)
base = json.load(open("/opt/vp/BASELINE.json"))
for s in ns["SEEDS"]:
    if sys.argv[2:] and s["id"] not in sys.argv[2:]:
        continue
    w = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        r = w + "/repo"
        d = w + "/seed"
        os.mkdir(d)
        open(d + "/demo.sh", "w").write(DEMO % s.get("timeout", 60))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        run = lambda: subprocess.run(["bash", d + "/demo.sh"], cwd=r, stdin=subprocess.DEVNULL, capture_output=True, text=True)
        a = run()
        if a.returncode:
            print(s["id"], "DEMO FAILS UNCHANGED", a.returncode, (a.stdout + a.stderr)[-600:])
            continue
        for f, old, new in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT", t.count(old), old)
                raise SystemExit(1)
            open(r + "/" + f, "w").write(t.replace(old, new))
        diff = subprocess.check_output(["git", "diff"], cwd=r, text=True)
        removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        bl = ""
        for f in {e[0] for e in s["edits"]}:
            bl += subprocess.check_output(["git", "blame", "-s", "HEAD", "--", f], cwd=r, text=True)
        orig = {l.split(") ", 1)[1] if ") " in l else "" for l in bl.splitlines() if l.startswith("^1aeb740") or l.startswith("1aeb740")}
        for l in removed:
            if l not in orig:
                print(s["id"], "NOT AN ORIGINAL LINE", l)
        b = run()
        if not b.returncode:
            print(s["id"], "DEMO PASSES CHANGED", (b.stdout + b.stderr)[-600:])
            continue
        t = subprocess.run(["bash", "-c", "sed 's#/repo#%s#g; s#unset PYTHONPATH.*#export PYTHONPATH=%s#' /opt/vp/env.sh > %s/env.sh; sed 's#/repo#%s#g; s#/opt/vp/env.sh#%s/env.sh#' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/o.json" % (r, r, w, r, w, w, w, w)], capture_output=True, text=True)
        try:
            o = json.load(open(w + "/o.json"))
        except Exception as e:
            print(s["id"], "TESTS", e, (t.stdout + t.stderr)[-500:])
            continue
        bad = [x for x in base["stable"] if x not in o["passed"]]
        if bad:
            print(s["id"], "TESTS FAIL", bad)
            continue
        a = subprocess.run(["git", "stash", "-q"], cwd=r)
        a = run()
        if a.returncode:
            print(s["id"], "DEMO UNSTABLE", (a.stdout + a.stderr)[-600:])
            continue
        out = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        print(s["id"], "ok; demo:", (b.stdout + b.stderr).strip()[-150:].replace("\n", " | "))
    finally:
        shutil.rmtree(w, ignore_errors=True)
