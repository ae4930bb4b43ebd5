"""Rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(p))
    n = os.path.basename(os.path.dirname(p))
    rows.append(f"| {n} | {m.get('caught_by', m['property'])} | {' '.join(m['needs'].split()).replace('|', '/')} |")
f = H + "/DESIGN.md"
d = open(f).read()
head = "| planted bug | caught by | needs |\n|---|---|---|\n"
i = d.index(head) + len(head)
j = i
for l in d[i:].splitlines(True):
    if not (l.startswith("|") or l.startswith("@@BUGS@@")):
        break
    j += len(l)
open(f, "w").write(d[:i] + "\n".join(rows) + "\n" + d[j:])
