"""table.py LOG...: the table of planted bugs in DESIGN.md from the output of seedcheck.py."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    cur = None
    for line in open(f, errors="replace"):
        m = re.match(r"(c\d\d-\S+)\s", line)
        if m:
            cur = m.group(1)
            got[cur] = {}
        m = re.match(r"    (C\d\d) exit (\d) (?:seed (\d+): ([\w-]+):)?", line)
        if m and cur:
            got[cur][m.group(1)] = (m.group(2), m.group(3), m.group(4))
rows = []
for i in sorted(os.listdir(HERE + "/seeded")):
    meta = json.load(open(HERE + "/seeded/%s/meta.json" % i))
    r = got.get(i, {}).get(meta["property"])
    c = "not run" if r is None else "**missed**" if r[0] == "0" else "%s, run %d" % (r[2], int(r[1]) - 1000000) if r[1] else "reported"
    rows.append("| %s | %s | %s |" % (i, meta["needs"].replace("|", "/"), c))
p = HERE + "/DESIGN.md"
s = open(p).read()
head = "## Planted bugs\n"
new = head + "\nWritten by `tools/mkseeds.py` from `tools/seeds`, judged by `tools/seedcheck.py`: each builds, passes the\nstable tests, and its demonstration tells the trees apart. The last column is what the check of\nits own property (the first three characters) reports at the quick tier with the default seed.\n\n| bug | needs | reported as |\n|---|---|---|\n" + "\n".join(rows) + "\n"
if head in s:
    a = s.index(head)
    b = s.find("\n## ", a + 5)
    s = s[:a] + new + ("" if b < 0 else s[b:])
else:
    s = s.rstrip("\n") + "\n\n" + new
open(p, "w").write(s)
print(len(rows), sum("missed" in r for r in rows), sum("not run" in r for r in rows))
