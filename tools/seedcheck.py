"""seedcheck.py ID...: in scratch copies of /repo, confirms that a planted bug
builds, passes the stable tests, that its demo tells the two trees apart, and
which checks report it.  --no-checks skips the last part; --all-props runs
every check instead of the bug's own."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
flags = [a for a in sys.argv[1:] if a.startswith("--")]
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
STABLE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


def tests(d):
    rc, out = sh([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "--ignore=tests/test_charNames.py", "--ignore=tests/test_layoutProps.py", "--ignore=tests/test_normalizer2.py", "--ignore=tests/test_exhaustive.py", "tests"], d, {"PYTHONPATH": d})
    return out.strip().splitlines()[-1]


base = None
for i in ids:
    s = os.path.join(HERE, "seeded", i)
    meta = json.load(open(s + "/meta.json"))
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    x = tempfile.mkdtemp(prefix="demo-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        subprocess.run("cp -a %s/. %s/ && rm -f %s/*.diff %s/meta.json" % (s, x, x, x), shell=True, check=True)
        if base is None:
            base = tests(d)
        c0, o0 = sh(["bash", x + "/demo.sh"], d, timeout=300)
        rc, o = sh(["git", "apply", s + "/patch.diff"], d)
        if rc:
            print(i, "PATCH DOES NOT APPLY", o)
            continue
        b, ob = sh([PY, "-B", "-c", open("/opt/vp/check_build.py").read().replace("/repo", d)], d, timeout=60)
        if b:
            print(i, "DOES NOT BUILD", ob[-800:])
        t = tests(d)
        c1, o1 = sh(["bash", x + "/demo.sh"], d, timeout=300)
        ok = c0 == 0 and c1 != 0 and t.split(" in ")[0] == base.split(" in ")[0]
        print("%-26s %s clean=%d patched=%d tests: %s" % (i, "ok  " if ok else "BAD ", c0, c1, t), flush=True)
        if c0:
            print("   clean demo:", o0[-1500:])
        if not c1:
            print("   patched demo:", o1[-500:])
        if "--show" in flags:
            print("   patched demo:", o1[-400:])
        if "--no-checks" in flags:
            continue
        props = ["C%02d" % k for k in range(1, 17)] if "--all-props" in flags else [meta["property"]]
        for p in props:
            rc, o = sh([PY, "-m", "sim.runner", p, "quick"], HERE, {"VERIF_REPO": d})
            last = [l for l in o.splitlines() if l.startswith("seed ") or l.startswith("HARNESS")]
            print("    %s exit %d %s" % (p, rc, (last[0] if last else "")[:230]), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(x, ignore_errors=True)
