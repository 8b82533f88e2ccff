"""mutate.py FILE PROPS RUNS [--jobs N] [--skip-tests] [--only K] [--sample P]: systematic small
changes of one file of /repo; each that passes the stable tests is given to
the checks (RUNS seeds, no minimising). Prints the survivors, to be judged by
hand: equivalent, outside the property, or a gap of the generators."""
import ast, argparse, concurrent.futures, json, os, random, shutil, subprocess, sys, tempfile, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("MUT_REPO", "/repo")

CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["+"], ast.FloorDiv: ["*"], ast.Mod: ["+"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
BSYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.FloorDiv: "//", ast.Mod: "%", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, e = pos(n)
        return b[a:e].decode()
    out = []

    def add(n, a, e, new, what):
        out.append((n.lineno, what, a, e, new))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            _, a = pos(n.left)
            e, _ = pos(n.comparators[0])
            mid = b[a:e].decode()
            s = SYM[type(n.ops[0])]
            for new in CMP[type(n.ops[0])]:
                if s in mid:
                    add(n, a, e, mid.replace(s, new, 1), "%s -> %s" % (s, new))
        elif isinstance(n, (ast.BinOp,)):
            _, a = pos(n.left)
            e, _ = pos(n.right)
            mid = b[a:e].decode()
            s = BSYM.get(type(n.op))
            if s and s in mid and not isinstance(n.left, ast.Constant) or (s and isinstance(getattr(n.left, "value", None), int)):
                for new in BIN[type(n.op)]:
                    add(n, a, e, mid.replace(s, new, 1), "%s -> %s" % (s, new))
        elif isinstance(n, ast.AugAssign):
            _, a = pos(n.target)
            e, _ = pos(n.value)
            mid = b[a:e].decode()
            s = BSYM.get(type(n.op))
            if s and s in mid:
                for new in BIN[type(n.op)]:
                    add(n, a, e, mid.replace(s, new, 1), "%s= -> %s=" % (s, new))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            a, e = pos(n)
            for new in (n.value + 1, n.value - 1):
                add(n, a, e, "(%d)" % new if new < 0 else str(new), "%d -> %d" % (n.value, new))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            a, e = pos(n)
            add(n, a, e, str(not n.value), "flip")
        elif isinstance(n, ast.BoolOp):
            _, a = pos(n.values[0])
            e, _ = pos(n.values[1])
            mid = b[a:e].decode()
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if o in mid:
                add(n, a, e, mid.replace(o, w, 1), o + " -> " + w)
            for v in n.values:
                a, e = pos(v)
                add(n, a, e, "True" if o == "and" else "False", "drop condition")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, e = pos(n)
            add(n, a, e, "(" + seg(n.operand) + ")", "drop not")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, e = pos(n.test)
            add(n, a, e, "False", "cond False")
            if not isinstance(n, ast.While):
                add(n, a, e, "True", "cond True")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max"):
            a, e = pos(n.func)
            add(n, a, e, "max" if n.func.id == "min" else "min", "min/max")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            a, e = pos(n)
            add(n, a, e, "pass", "delete: " + seg(n)[:60].replace("\n", " "))
        elif isinstance(n, ast.Break):
            a, e = pos(n)
            add(n, a, e, "continue", "break -> continue")
        elif isinstance(n, ast.Continue):
            a, e = pos(n)
            add(n, a, e, "pass", "continue -> pass")
            add(n, a, e, "break", "continue -> break")
        elif isinstance(n, ast.Return) and n.value is not None:
            a, e = pos(n.value)
            add(n, a, e, "None", "return None")
        elif isinstance(n, ast.Raise):
            a, e = pos(n)
            add(n, a, e, "pass", "delete raise")
        elif isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    a, e = pos(x)
                    add(n, a, e, "", "drop slice bound")
    seen = set()
    for m in sorted(out):
        new = (b[:m[2]] + m[4].encode() + b[m[3]:])
        if new == b or new in seen:
            continue
        seen.add(new)
        try:
            compile(new, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        yield m[0], m[1], new


SCAN = r'''
import sys, os, json
sys.path.insert(0, %r)
from sim import runner, scenarios
prop, n, jobs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
scn = scenarios.get(prop)
try:
    pool = runner.Pool(prop, jobs)
except runner.Broken as e:
    print("KILLED cannot-be-imported"); sys.exit(1)
try:
    stop = lambda r: r.get("ok") is False or "harness" in r
    res = pool.map(({"id": i, "seed": runner.run_seed(1, i), "tier": "quick"} for i in range(n)), stop, None)
    bad = [r for r in res.values() if r.get("ok") is False]
    h = [r for r in res.values() if "harness" in r]
    if bad:
        print("KILLED", bad[0]["violation"]["kind"], bad[0]["violation"]["detail"][:100], "after", len(res)); sys.exit(1)
    if h:
        print("HARNESS", h[0]["harness"][-300:].replace("\n", " "), "timeout" if h[0].get("timeout") else ""); sys.exit(3 if not h[0].get("timeout") else 1)
    print("SURVIVED", len(res))
finally:
    pool.close()
''' % HERE


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("props")
    ap.add_argument("runs", type=int)
    ap.add_argument("--par", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--skip-tests", action="store_true")
    ap.add_argument("--lines", default="")
    ap.add_argument("--sample", type=float, default=1.0)
    ap.add_argument("--match", default="")
    a = ap.parse_args()
    src = open(REPO + "/" + a.file, encoding="utf-8").read()
    ms = list(mutants(src))
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    if a.match:
        ms = [m for m in ms if a.match in m[1]]
    rng = random.Random(5)
    ms = [m for m in ms if rng.random() < a.sample]
    print(a.file, len(ms), "mutants", flush=True)
    stat = {}
    lock = threading.Lock()
    local = threading.local()
    dirs = []
    lines = src.splitlines()

    def work(m):
        if not hasattr(local, "d"):
            local.d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
            with lock:
                dirs.append(local.d)
            subprocess.run(["cp", "-a", REPO + "/.", local.d], check=True)
        d = local.d
        with open(os.path.join(d, a.file), "wb") as f:
            f.write(m[2])
        env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", VERIF_REPO=d, PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        if not a.skip_tests:
            try:
                r = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=tests/test_charNames.py", "--ignore=tests/test_layoutProps.py", "--ignore=tests/test_normalizer2.py", "--ignore=tests/test_exhaustive.py", "tests"],
                                   cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
                if r.returncode:
                    return m, "tests", ""
            except subprocess.TimeoutExpired:
                return m, "tests", ""
        txt = ""
        for p in a.props.split(","):
            try:
                r = subprocess.run([PY, "-c", SCAN, p, str(a.runs), str(a.jobs)], cwd=HERE, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return m, "slow", p
            txt = (r.stdout.strip().splitlines() or [""])[-1]
            if r.returncode == 1:
                return m, "killed", p + " " + txt
            if r.returncode:
                return m, "harness", p + " " + txt
        return m, "survived", txt
    try:
        with concurrent.futures.ThreadPoolExecutor(a.par) as ex:
            for m, st, txt in ex.map(work, ms):
                stat[st] = stat.get(st, 0) + 1
                if st in ("survived", "harness", "slow"):
                    print("%-9s %s:%d  [%s]  | %s | %s" % (st, a.file, m[0], m[1], lines[m[0] - 1].strip()[:110], txt if st != "survived" else ""), flush=True)
    finally:
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    print(a.file, stat, flush=True)


main()
