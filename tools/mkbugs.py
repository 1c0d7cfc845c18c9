"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(top, "seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), " ".join(d["needs"].split()).replace("|", "\\|")))
head = "| Property | Bug | Needs |\n|---|---|---|\n"
p = os.path.join(top, "DESIGN.md")
s = open(p).read()
i = s.index(head) + len(head)
n = re.match(r"(\|.*\n)*", s[i:]).end()
s = s[:i] + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)) + s[i + n:]
open(p, "w").write(s)
