#!/usr/bin/env python3
"""Writes the "fixed:" lines of known_findings.jsonl from the fix: commits in
/repo; the property of each is given here by the start of its subject."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {
 "the process reading": "C18", "errors when reading": "C04", "output that has been redirected": "C25", "a function whose files": "C25",
 "an argument can redirect": "C03", "files shared by several": "C08", "the reason a redirect": "C25",
 "the error of a command": "C25", "sharing a pipe": "C18", "functions took input": "C02",
 "captured output was changed": "C09", "bashsource of values": "C14", "pipelines can be run from any": "C18",
 "variables in arguments in pysh": "C11", "using the default configuration": "C22", "the standard in of a command": "C01",
 "a function that is not a generator": "C05", "functions with their standard in or out": "C02",
 "bound default redirects": "C12", "default redirects are": "C12", "setting the default redirects": "C12", "CTRL-Z after waiting": "C15",
 "cancelling a read": "C18", "commands do not inherit the log": "C06", "CTRL-C raises": "C23", "fg of a pipeline": "C15",
 "do not send signals": "C23", "a subshell never": "C19", "close the pipe to": "C07", "all output of a + b": "C01",
 "files to redirect to": "C08", "a failing cd": "C12", "pieshell --log": "C22", "importing a missing": "C21",
 "unpickling R()": "C20", "CTRL-Z without": "C15", "clear_dir_cache": "C24", "dir(env)": "C24",
 "an environment without": "C12", "builtins that run nothing": "C17", "close the standard in of a function": "C02",
 "writing an item": "C18", "do not run commands": "C25", "several redirects can": "C06", "several tasks": "C04",
 "STRING content": "C09", "an efb": "C04", "a function that raised": "C04", "a process killed": "C04",
}
base = "1aeb740"
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", base + "..HEAD"], text=True)
path = os.path.join(V, "known_findings.jsonl")
keep = []
if os.path.exists(path):
    keep = [l for l in open(path) if not l.startswith("fixed:")]
out = []
extra = {}
ep = os.path.join(V, "tools/fixprops.txt")
if os.path.exists(ep):
    for l in open(ep):
        if l.strip():
            k, v = l.rstrip("\n").split("\t")
            extra[k] = v
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [v for k, v in list(PROP.items()) + list(extra.items()) if s.startswith(k)]
    if not p:
        sys.exit("no property for: " + s)
    out.append("fixed: property=%s %s %s\n" % (p[0], h, s))
open(path, "w").writelines(out + keep)
print(len(out), "fixed,", len(keep), "other lines")
