"""mkseeds.py [ID...]: writes /verif/seeded/<id>/ from the bugs in tools/seeds/bugs*.py,
each of which lists edits against the sources in /repo and a demonstration."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(HERE, "tools", "seeds")
BUGS = []


def bug(id, prop, needs, breaks, edits, demo, data=False):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, data=data))


for f in sorted(os.listdir(SEEDS)):
    if f.startswith("bugs") and f.endswith(".py"):
        exec(compile(open(os.path.join(SEEDS, f)).read(), f, "exec"), dict(bug=bug))
want = set(sys.argv[1:])
for b in BUGS:
    if want and b["id"] not in want:
        continue
    d = tempfile.mkdtemp(prefix="mkseed-", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a -c user.name=a commit -qm x" % (d, d), shell=True, check=True)
        bad = False
        for path, old, new in b["edits"]:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) != 1:
                print("%s: %d matches in %s of %r" % (b["id"], s.count(old), path, old[:60]))
                bad = True
                continue
            open(p, "w").write(s.replace(old, new))
        if bad:
            continue
        out = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True, check=True).stdout
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.copy(SEEDS + "/demolib.py", out)
        if b["data"]:
            os.makedirs(out + "/sim")
            open(out + "/sim/__init__.py", "w").close()
            for n in ("icudata.py", "dataset.py", "icutree.py") + (("icusem.py",) if b["data"] == "sem" else ()):
                shutil.copy(os.path.join(HERE, "sim", n), out + "/sim")
        open(out + "/demo.py", "w").write("from demolib import *\n" + b["demo"].strip("\n") + "\n")
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository: exit 0 if the property holds here\nexec timeout 250 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        print(b["id"], "written")
    finally:
        shutil.rmtree(d, ignore_errors=True)
